// An independent writer of OSM PBF files (https://wiki.openstreetmap.org/wiki/PBF_Format), used as generator and reference model.
#pragma once
#include "pbt.hpp"
#include <zlib.h>
#include <cmath>
#include <map>
#include <fstream>

namespace pbf {
typedef std::vector<std::pair<std::string, std::string>> Tags;

// ---- protobuf encoding ----
inline void varint(std::string &o, uint64_t x) { while (x >= 128) { o += (char)(x | 128); x >>= 7; } o += (char)x; }
inline uint64_t zigzag(int64_t x) { return ((uint64_t)x << 1) ^ (uint64_t)(x >> 63); }
inline void key(std::string &o, unsigned field, unsigned wire) { varint(o, (uint64_t)field << 3 | wire); }
inline void put_int(std::string &o, unsigned field, uint64_t x) { key(o, field, 0); varint(o, x); }
inline void put_bytes(std::string &o, unsigned field, const std::string &s) { key(o, field, 2); varint(o, s.size()); o += s; }
inline std::string deflated(const std::string &s) {
	uLongf n = compressBound(s.size()); std::string r(n, 0);
	compress((Bytef *)&r[0], &n, (const Bytef *)s.data(), s.size()); r.resize(n); return r;
}

// ---- model ----
struct Node { uint64_t id; int64_t lat, lon; Tags tags; }; // coordinates in units of the granularity of the block
struct Way { uint64_t id; std::vector<uint64_t> nodes; Tags tags; };
struct Member { int type; uint64_t id; std::string role; };
struct Relation { uint64_t id; std::vector<Member> members; Tags tags; };

struct StringTable {
	std::vector<std::string> list{""}; std::map<std::string, unsigned> pos;
	unsigned operator()(const std::string &s) { auto it = pos.find(s); if (it != pos.end()) return it->second; list.push_back(s); pos[s] = list.size() - 1; return list.size() - 1; }
};

enum Compression { zlib, raw_with_size, raw_without_size };

struct Noise { // optional parts of the format that a reader has to skip
	bool info = false, unknown = false;
	void field(std::string &o, unsigned base) const {
		if (!unknown) return;
		put_int(o, base, 300); put_bytes(o, base + 1, "junk"); key(o, base + 2, 1); o.append(8, '\x11'); key(o, base + 3, 5); o.append(4, '\x22');
	}
	std::string info_msg() const { std::string i; put_int(i, 1, 3); put_int(i, 2, 1234567); put_int(i, 3, 99); put_int(i, 4, 7); return i; }
};

struct Block {
	StringTable strings; std::vector<std::string> groups; Noise noise;
	bool explicit_granularity = false; int64_t granularity = 100, lat_offset = 0, lon_offset = 0; bool groups_first = false;

	void keys(std::string &o, const Tags &t) { if (t.empty()) return; std::string k, v; for (auto &x : t) { varint(k, strings(x.first)); varint(v, strings(x.second)); } put_bytes(o, 2, k); put_bytes(o, 3, v); }
	void sparse(const std::vector<Node> &v) {
		std::string g; for (auto &n : v) { std::string o; put_int(o, 1, zigzag((int64_t)n.id)); keys(o, n.tags); if (noise.info) put_bytes(o, 4, noise.info_msg()); noise.field(o, 30); put_int(o, 8, zigzag(n.lat)); put_int(o, 9, zigzag(n.lon)); put_bytes(g, 1, o); }
		groups.push_back(g);
	}
	void dense(const std::vector<Node> &v, bool always_tags = false, bool empty_tags = false) {
		std::string id, la, lo, kv, o; uint64_t pi = 0; int64_t pa = 0, po = 0; bool any = always_tags;
		for (auto &n : v) any |= !n.tags.empty();
		for (auto &n : v) { varint(id, zigzag((int64_t)(n.id - pi))); pi = n.id; varint(la, zigzag(n.lat - pa)); pa = n.lat; varint(lo, zigzag(n.lon - po)); po = n.lon; for (auto &t : n.tags) { varint(kv, strings(t.first)); varint(kv, strings(t.second)); } varint(kv, 0); }
		put_bytes(o, 1, id); if (noise.info) put_bytes(o, 5, noise.info_msg()); put_bytes(o, 8, la); noise.field(o, 30); put_bytes(o, 9, lo); if (any && !v.empty()) put_bytes(o, 10, kv); else if (empty_tags) put_bytes(o, 10, "");
		std::string g; put_bytes(g, 2, o); groups.push_back(g);
	}
	void ways(const std::vector<Way> &v) {
		std::string g; for (auto &w : v) { std::string o, r; put_int(o, 1, w.id); keys(o, w.tags); if (noise.info) put_bytes(o, 4, noise.info_msg()); uint64_t p = 0; for (auto x : w.nodes) { varint(r, zigzag((int64_t)(x - p))); p = x; } if (!w.nodes.empty()) put_bytes(o, 8, r); noise.field(o, 30); put_bytes(g, 3, o); }
		groups.push_back(g);
	}
	void relations(const std::vector<Relation> &v) {
		std::string g; for (auto &w : v) { std::string o, r, i, t; put_int(o, 1, w.id); keys(o, w.tags); if (noise.info) put_bytes(o, 4, noise.info_msg()); uint64_t p = 0; for (auto &m : w.members) { varint(r, strings(m.role)); varint(i, zigzag((int64_t)(m.id - p))); p = m.id; varint(t, m.type); } if (!w.members.empty()) { put_bytes(o, 8, r); put_bytes(o, 9, i); put_bytes(o, 10, t); } noise.field(o, 30); put_bytes(g, 4, o); }
		groups.push_back(g);
	}
	std::string encode() const {
		std::string st, g, o; for (auto &s : strings.list) put_bytes(st, 1, s);
		for (auto &x : groups) put_bytes(g, 2, x);
		if (groups_first) { o += g; put_bytes(o, 1, st); } else { put_bytes(o, 1, st); o += g; }
		if (explicit_granularity || granularity != 100) put_int(o, 17, (uint64_t)granularity);
		if (noise.unknown) { put_int(o, 18, 1000); put_bytes(o, 50, "junk"); }
		if (lat_offset) put_int(o, 19, (uint64_t)lat_offset);
		if (lon_offset) put_int(o, 20, (uint64_t)lon_offset);
		return o;
	}
};

struct File {
	std::string bytes; std::vector<size_t> boundary{0}; // after each complete block
	void blob(const std::string &type, const std::string &payload, Compression c, bool extra = false) {
		std::string b; if (c == zlib) { put_int(b, 2, payload.size()); put_bytes(b, 3, deflated(payload)); } else { put_bytes(b, 1, payload); if (c == raw_with_size) put_int(b, 2, payload.size()); }
		if (extra) Noise{false, true}.field(b, 30);
		block(type, b, extra);
	}
	void block(const std::string &type, const std::string &data, bool extra = false) {
		std::string h; put_bytes(h, 1, type); if (extra) { put_bytes(h, 2, "index data"); Noise{false, true}.field(h, 30); } put_int(h, 3, data.size()); if (extra) put_int(h, 34, 77);
		for (int s = 24; s >= 0; s -= 8) bytes += (char)(h.size() >> s & 255);
		bytes += h; bytes += data; boundary.push_back(bytes.size());
	}
	void header(Compression c, bool sorted) {
		std::string h; put_bytes(h, 4, "OsmSchema-V0.6"); put_bytes(h, 4, "DenseNodes"); if (sorted) put_bytes(h, 5, "Sort.Type_then_ID"); put_bytes(h, 16, "verification"); blob("OSMHeader", h, c);
	}
	void add(const Block &b, Compression c, bool extra = false) { blob("OSMData", b.encode(), c, extra); }
	void save(const std::string &name) const { std::ofstream o(name, std::ios::binary); o.write(bytes.data(), bytes.size()); o.close(); if (!o) throw pbt::Discard{}; }
};

// ---- what a reader has to report ----
struct Event {
	int kind; uint64_t id; double lat = 0, lon = 0; std::vector<uint64_t> nodes; std::vector<Member> members; Tags tags; // tags sorted
	std::string str() const {
		std::ostringstream o; o.precision(12); o << (kind == 0 ? "node " : kind == 1 ? "way " : "relation ") << id; if (kind == 0) o << " at " << lat << "," << lon;
		for (auto n : nodes) o << " " << n; for (auto &m : members) o << " (" << m.type << "," << m.id << "," << m.role << ")"; o << " {"; for (auto &t : tags) o << t.first.substr(0, 20) << "=" << t.second.substr(0, 20) << ";"; o << "}"; return o.str();
	}
};
inline bool same_event(const Event &a, const Event &b) {
	if (a.kind != b.kind || a.id != b.id || a.nodes != b.nodes || a.tags != b.tags || a.members.size() != b.members.size()) return false;
	if (std::fabs(a.lat - b.lat) > 1e-10 || std::fabs(a.lon - b.lon) > 1e-10) return false;
	for (size_t i = 0; i < a.members.size(); ++i) if (a.members[i].type != b.members[i].type || a.members[i].id != b.members[i].id || a.members[i].role != b.members[i].role) return false;
	return true;
}
} // namespace pbf
