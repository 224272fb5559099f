// P19: OSM PBF decoding: protobuf primitives, tag map, element streams, damaged files.
#include "osm_events.hpp"
#include "protobuf.h"
#include "faults.hpp"
#include <routingkit/tag_map.h>
#include <memory>
using namespace RoutingKit;
using namespace pbf;

// ---------------------------------------------------------------- protobuf primitives
struct Exact { std::unique_ptr<char[]> p; const char *b, *e; Exact(const std::string &s) : p(new char[s.size() ? s.size() : 1]) { memcpy(p.get(), s.data(), s.size()); b = p.get(); e = b + s.size(); } };

static void primitives(pbt::Gen &g) {
	unsigned k = 1 + g.below(8); std::vector<uint64_t> v; std::string s;
	for (unsigned i = 0; i < k; ++i) { unsigned b = g.below(65); uint64_t x = g.bits64(); x = b == 64 ? x : x & ((1ull << b) - 1); if (g.chance(1, 8)) x = ~0ull; v.push_back(x); varint(s, x); }
	g.note() << "varints";
	for (auto x : v) g.note() << " " << x;
	{ Exact x(s); const char *p = x.b; for (auto y : v) { REQUIRE_EQ(decode_varint_as_uint64_and_advance_first_parameter(p, x.e), y, "varint"); } REQUIRE(p == x.e, "varints not consumed"); }
	for (auto x : v) { REQUIRE_EQ(zigzag_convert_uint64_to_int64(zigzag((int64_t)x)), (int64_t)x, "zigzag round trip"); REQUIRE_EQ(zigzag(zigzag_convert_uint64_to_int64(x)), x, "zigzag round trip of " << x); }
	{ // non canonical (padded) encodings of small values are valid
		std::string t; uint64_t y = v[0] & 0xffffff; unsigned len = 5 + g.below(5); for (unsigned i = 0; i + 1 < len; ++i) { t += (char)((y & 127) | 128); y >>= 7; } t += (char)y;
		Exact x(t); const char *p = x.b; REQUIRE_EQ(decode_varint_as_uint64_and_advance_first_parameter(p, x.e), v[0] & 0xffffff, "padded varint"); REQUIRE(p == x.e, "padded varint not consumed"); }
	// damaged varints must be rejected
	auto rejects = [](const std::string &t, const char *what) { Exact x(t); const char *p = x.b; bool thrown = false; try { decode_varint_as_uint64_and_advance_first_parameter(p, x.e); } catch (std::exception &) { thrown = true; } REQUIRE(thrown, what << " accepted: " << pbt::show(t)); };
	{ std::string t; varint(t, v[0]); t.pop_back(); rejects(t, "truncated varint"); }
	{ std::string t(g.range(10, 14), '\x80'); for (auto &c : t) if (g.chance(1, 2)) c = (char)0x81; rejects(t, "unterminated varint"); t += '\0'; rejects(t, "varint of more than 10 bytes"); }
	{ std::string t; for (unsigned i = 0; i < 9; ++i) t += (char)(128 | g.below(128)); t += (char)g.range(2, 127); rejects(t, "varint that does not fit into 64 bit"); }
	// messages
	std::string m; struct F { unsigned id, wire; uint64_t num; double d; std::string str; }; std::vector<F> fs; unsigned n = g.below(8);
	for (unsigned i = 0; i < n; ++i) {
		F f; f.id = g.chance(1, 3) ? g.range(1, 15) : g.range(16, 100000); static const std::vector<unsigned> w = {0, 1, 2, 5}; f.wire = g.pick(w); f.num = g.bits64() >> g.below(64); f.d = 0;
		key(m, f.id, f.wire);
		if (f.wire == 0) varint(m, f.num); else if (f.wire == 1) { f.d = (double)(int64_t)f.num / 7; m.append((const char *)&f.d, 8); } else if (f.wire == 5) { float q = (float)(int64_t)f.num / 3; f.d = q; m.append((const char *)&q, 4); } else { f.str = std::string(g.below(200), 'a' + i); varint(m, f.str.size()); m += f.str; }
		fs.push_back(f);
	}
	auto decode = [&](const std::string &t, std::vector<F> &out) { Exact x(t); decode_protobuf_message_with_callbacks(x.b, x.e, [&](uint64_t id, uint64_t num) { out.push_back({(unsigned)id, 0, num, 0, ""}); }, [&](uint64_t id, double d) { out.push_back({(unsigned)id, 1, 0, d, ""}); }, [&](uint64_t id, const char *b, const char *e) { out.push_back({(unsigned)id, 2, 0, 0, std::string(b, e)}); }); };
	auto cmp = [&](const std::vector<F> &o) { for (unsigned i = 0; i < o.size(); ++i) { const F &e = fs[i]; REQUIRE_EQ(o[i].id, e.id, "field id"); REQUIRE_EQ(o[i].wire, e.wire == 5 ? 1 : e.wire, "kind of field"); if (e.wire == 0) REQUIRE_EQ(o[i].num, e.num, "integer field"); else if (e.wire == 2) REQUIRE_EQ(o[i].str, e.str, "bytes field"); else REQUIRE_EQ(o[i].d, e.d, "floating point field"); } };
	std::vector<F> out; decode(m, out); REQUIRE_EQ(out.size(), fs.size(), "number of fields"); cmp(out);
	if (!m.empty()) { // any proper prefix decodes to a prefix of the fields, and cut fields are reported
		unsigned cut = g.below(m.size()); std::vector<F> o2; bool thrown = false; try { decode(m.substr(0, cut), o2); } catch (std::exception &) { thrown = true; }
		REQUIRE(o2.size() < fs.size(), "cut message yields all fields"); cmp(o2);
		size_t need = 0; { std::string p; for (unsigned i = 0; i < o2.size(); ++i) { const F &f = fs[i]; key(p, f.id, f.wire); if (f.wire == 0) varint(p, f.num); else if (f.wire == 1) p.append(8, 0); else if (f.wire == 5) p.append(4, 0); else put_bytes(p, 1, ""), p.pop_back(), p.pop_back(), varint(p, f.str.size()), p += f.str; } need = p.size(); }
		REQUIRE_EQ(thrown, need != cut, "message cut after " << cut << " of " << m.size() << " bytes");
	}
	g.nontrivial(n > 1);
}

// ---------------------------------------------------------------- tag map
static std::string draw_string(pbt::Gen &g) {
	static const std::vector<std::string> common = {"highway", "name", "oneway", "residential", "yes", "no", "-1", "maxspeed", "50", "a", "aa", "aaa", "aba", "ABA", "", "Highway", "hxghwxy", "junction", "roundabout"};
	if (g.chance(2, 3)) return g.pick(common);
	unsigned n = g.chance(1, 10) ? g.range(100, 400) : g.below(6); std::string s; bool wide = g.chance(1, 4);
	for (unsigned i = 0; i < n; ++i) s += wide ? (char)g.range(1, 255) : (char)('a' + g.below(4));
	return s;
}
static Tags draw_tags(pbt::Gen &g, unsigned max) {
	Tags t; unsigned n = g.below(max + 1);
	if (n && g.chance(1, 60)) { unsigned k = g.range(5, g.chance(1, 4) ? 500 : 70); for (unsigned i = 0; i < k; ++i) t.push_back({"k" + std::to_string(i), "v" + std::to_string(i % 50)}); }
	for (unsigned i = 0; i < n; ++i) { std::string k = draw_string(g); bool dup = false; for (auto &x : t) dup |= x.first == k; if (!dup) t.push_back({k, draw_string(g)}); }
	return t;
}
static void tag_map(pbt::Gen &g) {
	TagMap m; unsigned rounds = 1 + g.below(6), nonempty = 0, cleared = 0;
	for (unsigned r = 0; r < rounds; ++r) {
		if (g.chance(1, 5)) { m.clear(); ++cleared; g.note() << " clear"; REQUIRE(m.empty() && m.size() == 0 && m.begin() == m.end(), "tag map not empty after clear"); for (auto k : {"highway", "a", ""}) REQUIRE(m[k] == nullptr, "lookup after clear"); continue; }
		Tags t = draw_tags(g, 30); bool big = g.chance(1, 400); if (big) { unsigned n = g.range(60000, 70000); for (unsigned i = 0; i < n; ++i) t.push_back({"key" + std::to_string(i), std::to_string(i)}); }
		g.note() << " build " << t.size(); for (unsigned i = 0; i < t.size() && i < 30; ++i) g.note() << " " << pbt::show(t[i].first); nonempty += !t.empty();
		m.build(t.size(), [&](uint64_t i) { return t[i].first.c_str(); }, [&](uint64_t i) { return t[i].second.c_str(); });
		REQUIRE_EQ((uint64_t)m.size(), (uint64_t)t.size(), "size"); REQUIRE_EQ(m.empty(), t.empty(), "empty");
		size_t step = t.size() > 1000 ? 97 : 1; for (size_t i = 0; i < t.size(); i += step) { auto &x = t[step == 1 ? i : t.size() - 1 - i]; const char *v = m[x.first.c_str()]; REQUIRE(v && x.second == v, "value of " << pbt::show(x.first) << " is " << pbt::show(v) << ", expected " << pbt::show(x.second)); }
		Tags e, s = t; for (auto it = m.begin(); it != m.end(); ++it) e.push_back({it->key, it->value}); std::sort(e.begin(), e.end()); std::sort(s.begin(), s.end()); REQUIRE(e == s, "enumerated tags differ");
		for (unsigned i = 0; i < 8; ++i) { std::string k = draw_string(g); bool in = false; for (auto &x : t) in |= x.first == k; if (!in) REQUIRE(m[k.c_str()] == nullptr, "absent key " << pbt::show(k) << " has value " << m[k.c_str()]); }
		if (g.chance(1, 4)) { TagMap c(m); for (size_t i = 0; i < t.size(); i += step) { auto &x = t[i]; const char *v = c[x.first.c_str()]; REQUIRE(v && x.second == v, "value in a copy"); } m = c; }
	}
	g.nontrivial(nonempty > 1);
}

// ---------------------------------------------------------------- files
struct Made { File f; std::vector<Event> events; std::vector<size_t> events_at; bool sorted = true; };

static uint64_t draw_id(pbt::Gen &g) { if (g.chance(1, 40)) return (uint64_t)-(int64_t)(2 + g.below(1000)); switch (g.below(4)) { case 0: return g.below(50); case 1: return g.below(1ull << 33); case 2: return g.below(1ull << 50); default: return g.below(5000); } }

static Made draw_file(pbt::Gen &g, bool force_sorted) {
	Made r; unsigned blocks = g.chance(1, 12) ? 0 : 1 + g.below(4);
	if (!g.chance(1, 6)) r.f.header((Compression)g.below(3), force_sorted);
	r.events_at.assign(r.f.boundary.size(), 0);
	int last_kind = 0;
	for (unsigned b = 0; b < blocks; ++b) {
		if (g.chance(1, 8)) { static const std::vector<std::string> other = {"SomethingElse", "OSM", "OSMData2", "OSMDat", "osmdata", "OSMHeaderX", "OSMHeade", "", "OSMDataVeryLongTypeNameOfABlock", "XOSMData", "exactly15chars!", "exactly16 chars!"}; r.f.block(g.pick(other), std::string(g.below(300), 'x')); r.events_at.push_back(r.events.size()); }
		Block B; B.noise.info = g.chance(1, 4); B.noise.unknown = g.chance(1, 4); B.groups_first = g.chance(1, 6); B.explicit_granularity = g.chance(1, 5);
		if (g.chance(1, 3)) { static const std::vector<int64_t> gr = {1, 10, 1000, 50, 100000}; B.granularity = g.pick(gr); }
		if (g.chance(1, 3)) { B.lat_offset = g.irange(-30, 30) * (g.chance(1, 2) ? 1000000000ll : 1); B.lon_offset = g.irange(-60, 60) * (g.chance(1, 2) ? 1000000000ll : 7); }
		if (g.chance(1, 10)) B.strings("padding so that the first used string has a higher number");
		unsigned groups = g.below(4); if (groups > 1 && g.chance(1, 60)) groups = g.below(g.chance(1, 3) ? 1500 : 200);
		for (unsigned q = 0; q < groups; ++q) {
			unsigned n = groups > 5 ? g.below(2) : g.small(12); if (groups < 5 && g.chance(1, 40)) n = 300;
			int kind = g.below(3); if (force_sorted) { kind = std::max(kind, last_kind); } if (kind < last_kind) r.sorted = false; if (n) last_kind = std::max(last_kind, kind);
			if (kind == 0) {
				std::vector<Node> v; int64_t lim_lat = (60000000000ll) / B.granularity, lim_lon = 119000000000ll / B.granularity;
				for (unsigned i = 0; i < n; ++i) {
					Node x; x.id = draw_id(g); bool far = g.chance(1, 3); x.lat = g.irange(far ? -lim_lat : -1000, far ? lim_lat : 1000); x.lon = g.irange(far ? -lim_lon : -1000, far ? lim_lon : 1000); x.tags = g.chance(1, 3) ? draw_tags(g, 4) : Tags(); v.push_back(x);
					Event e; e.kind = 0; e.id = x.id; e.lat = (double)(1e-9L * (B.lat_offset + B.granularity * x.lat)); e.lon = (double)(1e-9L * (B.lon_offset + B.granularity * x.lon)); e.tags = x.tags; r.events.push_back(e);
				}
				bool sparse = g.chance(1, 3); bool has_empty_key = false; for (auto &x : v) for (auto &t : x.tags) has_empty_key |= t.first.empty(); // string 0 ends a tag list in dense groups
				if (sparse || has_empty_key) B.sparse(v); else if (n) B.dense(v, g.chance(1, 2), g.chance(1, 4)); g.label(sparse ? "sparse" : "dense");
			} else if (kind == 1) {
				std::vector<Way> v; for (unsigned i = 0; i < n; ++i) { Way w; w.id = draw_id(g); unsigned k = g.small(10); if (k > 1 && g.chance(1, 60)) k = g.below(400); for (unsigned j = 0; j < k; ++j) w.nodes.push_back(draw_id(g)); w.tags = draw_tags(g, 4); v.push_back(w); Event e; e.kind = 1; e.id = w.id; e.nodes = w.nodes; e.tags = w.tags; r.events.push_back(e); }
				B.ways(v); g.label("ways");
			} else {
				std::vector<Relation> v; for (unsigned i = 0; i < n; ++i) { Relation w; w.id = draw_id(g); unsigned k = g.small(6); if (k > 1 && g.chance(1, 60)) k = g.below(400); for (unsigned j = 0; j < k; ++j) w.members.push_back({(int)g.below(3), draw_id(g), draw_string(g)}); w.tags = draw_tags(g, 4); v.push_back(w); Event e; e.kind = 2; e.id = w.id; e.members = w.members; e.tags = w.tags; r.events.push_back(e); }
				B.relations(v); g.label("relations");
			}
		}
		r.f.add(B, (Compression)g.below(3), g.chance(1, 6)); r.events_at.push_back(r.events.size());
	}
	for (auto &e : r.events) std::sort(e.tags.begin(), e.tags.end());
	g.note() << r.events.size() << " elements in " << blocks << " blocks, " << r.f.bytes.size() << " bytes";
	for (unsigned i = 0; i < r.events.size() && i < 6; ++i) g.note() << "; " << r.events[i].str().substr(0, 200);
	return r;
}

static void compare(const std::vector<Event> &got, const std::vector<Event> &exp, const char *what, bool prefix = false) {
	for (size_t i = 0; i < got.size() && i < exp.size(); ++i) REQUIRE(same_event(got[i], exp[i]), what << ": element " << i << " is " << got[i].str() << ", expected " << exp[i].str());
	if (prefix) REQUIRE(got.size() <= exp.size(), what << ": more elements than the file has: " << got.size());
	else REQUIRE_EQ((uint64_t)got.size(), (uint64_t)exp.size(), what << ": number of elements");
}

static void read_files(pbt::Gen &g) {
	bool want_sorted = g.chance(1, 3); Made m = draw_file(g, want_sorted);
	std::string name = pbt::scratch_file("a.pbf"); m.f.save(name);
	bool n = g.chance(3, 4), w = g.chance(3, 4), r = g.chance(3, 4); if (!n && !w && !r) n = true;
	bool ordered = g.chance(1, 2), flag = m.sorted && g.chance(1, 2);
	g.note() << (ordered ? " ordered" : " unordered") << (flag ? " flag" : "") << " callbacks " << n << w << r;
	std::vector<Event> exp; for (auto &e : m.events) if ((e.kind == 0 && n) || (e.kind == 1 && w) || (e.kind == 2 && r)) exp.push_back(e);
	if (ordered) std::stable_sort(exp.begin(), exp.end(), [](const Event &a, const Event &b) { return a.kind < b.kind; });
	Callbacks c; std::string msg;
	bool stop = g.chance(1, 10); if (stop) c.stop_after = g.below(exp.size() + 1) + 1;
	bool nolog = g.chance(1, 4);
	auto log = [](const std::string &) {};
	std::string caught;
	try {
		if (!ordered) { if (nolog) unordered_read_osm_pbf(name, n ? c.node() : nullptr, w ? c.way() : nullptr, r ? c.relation() : nullptr); else unordered_read_osm_pbf(name, n ? c.node() : nullptr, w ? c.way() : nullptr, r ? c.relation() : nullptr, log); }
		else ordered_read_osm_pbf(name, n ? c.node() : nullptr, w ? c.way() : nullptr, r ? c.relation() : nullptr, log, flag);
	} catch (std::string &s) { caught = s; } catch (std::exception &e) { pbt::fail(std::string("reading a valid file failed: ") + e.what()); }
	if (stop && c.stop_after <= exp.size()) { REQUIRE_EQ(caught, std::string("stop"), "an exception of a callback must reach the caller"); exp.resize(c.stop_after); } else REQUIRE_EQ(caught, std::string(""), "unexpected exception");
	compare(c.ev, exp, ordered ? "ordered read" : "unordered read");
	g.nontrivial(exp.size() > 3); g.label(ordered ? (flag ? "ordered, one scan" : "ordered") : "unordered");
}

// blocks with more than 65536 strings, elements, references and members, and files of blocks up to the size limit of 32 MiB that exceed every buffer
static void big(pbt::Gen &g) {
	File f; std::vector<Event> exp; bool sorted = true; int last = 0; uint64_t r = g.bits64(); f.header(zlib, false);
	auto put = [&](Event e) { if (e.kind < last) sorted = false; last = e.kind; std::sort(e.tags.begin(), e.tags.end()); exp.push_back(e); };
	auto add_nodes = [&](Block &B, unsigned n, unsigned every, bool sparse) { std::vector<Node> v; for (unsigned i = 0; i < n; ++i) { Node x; x.id = pbt::splitmix(r) >> 20; x.lat = (int64_t)(pbt::splitmix(r) % 1200000000) - 600000000; x.lon = (int64_t)(pbt::splitmix(r) % 2400000000ull) - 1200000000; if (i % every == 0) x.tags = {{"ref", "r" + std::to_string(i)}, {"k" + std::to_string(i % 70), "yes"}}; v.push_back(x); Event e; e.kind = 0; e.id = x.id; e.lat = (double)(1e-9L * 100 * x.lat); e.lon = (double)(1e-9L * 100 * x.lon); e.tags = x.tags; put(e); } if (sparse) B.sparse(v); else B.dense(v); };
	auto add_way = [&](Block &B, unsigned refs, unsigned tags) { Way w; w.id = pbt::splitmix(r) >> 20; for (unsigned i = 0; i < refs; ++i) w.nodes.push_back(pbt::splitmix(r) >> (20 + i % 30)); for (unsigned i = 0; i < tags; ++i) w.tags.push_back({"key" + std::to_string(i), std::to_string(i / 3)}); B.ways({w}); Event e; e.kind = 1; e.id = w.id; e.nodes = w.nodes; e.tags = w.tags; put(e); };
	auto add_relation = [&](Block &B, unsigned members) { Relation w; w.id = pbt::splitmix(r) >> 20; for (unsigned i = 0; i < members; ++i) w.members.push_back({(int)(pbt::splitmix(r) % 3), pbt::splitmix(r) >> (20 + i % 30), i % 5 ? "outer" : "role" + std::to_string(i)}); w.tags = {{"type", "multipolygon"}}; B.relations({w}); Event e; e.kind = 2; e.id = w.id; e.members = w.members; e.tags = w.tags; put(e); };
	bool blobs = g.chance(1, 2);
	if (!blobs) {
		unsigned n = 66000 + g.below(8000); unsigned every = 1 + g.below(3); bool sparse = g.chance(1, 3); Block B; add_nodes(B, n, every, sparse); add_way(B, 65530 + g.below(g.chance(1, 2) ? 20 : 8000), g.below(300)); add_relation(B, 65530 + g.below(g.chance(1, 2) ? 20 : 8000)); add_nodes(B, g.below(50), 1, g.chance(1, 2)); f.add(B, (Compression)g.below(3));
		Block C; add_way(C, g.below(3000), 66000 + g.below(100)); add_nodes(C, 20, 1, false); f.add(C, (Compression)g.below(3)); g.label("many elements");
	} else {
		unsigned k = 12 + g.below(16); for (unsigned b = 0; b < k; ++b) { Block B; add_nodes(B, 1 + pbt::splitmix(r) % 8000, 5, false); if (pbt::splitmix(r) % 2) add_way(B, pbt::splitmix(r) % 2000, 5); if (pbt::splitmix(r) % 4 == 0) add_relation(B, 100); std::string p = B.encode(); size_t limit = 32u << 20, want = pbt::splitmix(r) % 5 == 0 ? limit : pbt::splitmix(r) % limit; if (want > p.size() + 20) put_bytes(p, 60, std::string(want - p.size() - 8, 'p')); f.blob("OSMData", p, pbt::splitmix(r) % 8 ? zlib : raw_with_size); }
		g.label("large blocks");
	}
	std::string name = pbt::scratch_file("b.pbf"); f.save(name); g.note() << exp.size() << " elements in a file of " << f.bytes.size() << " bytes"; f.bytes.clear(); f.bytes.shrink_to_fit();
	bool ordered = g.chance(1, 3); if (ordered) { g.note() << " ordered"; std::stable_sort(exp.begin(), exp.end(), [](const Event &a, const Event &b) { return a.kind < b.kind; }); }
	Callbacks c; try { if (ordered) ordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); else unordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); } catch (std::exception &e) { pbt::fail(std::string("reading a valid file failed: ") + e.what()); }
	for (size_t i = 0; i < c.ev.size() && i < exp.size(); ++i) if (!same_event(c.ev[i], exp[i])) pbt::fail("element " + std::to_string(i) + " of " + std::to_string(exp.size()) + " is " + c.ev[i].str().substr(0, 300) + ", expected " + exp[i].str().substr(0, 300));
	REQUIRE_EQ((uint64_t)c.ev.size(), (uint64_t)exp.size(), "number of elements"); g.nontrivial();
}

// a file that ends early: nothing invented, and the loss is reported
static void truncated(pbt::Gen &g) {
	Made m = draw_file(g, g.chance(1, 2)); if (m.f.bytes.empty()) { g.label("empty file"); }
	size_t cut = m.f.bytes.empty() ? 0 : g.below(m.f.bytes.size()); if (g.chance(1, 6)) cut = 0; if (g.chance(1, 6)) cut = m.f.boundary[g.below(m.f.boundary.size())];
	bool clean = false; size_t ev = 0; for (size_t i = 0; i < m.f.boundary.size(); ++i) { if (m.f.boundary[i] == cut) clean = true; if (m.f.boundary[i] <= cut) ev = m.events_at[i]; }
	File t; t.bytes = m.f.bytes.substr(0, cut); std::string name = pbt::scratch_file("t.pbf"); t.save(name); bool ordered = g.chance(1, 3);
	g.note() << " cut after " << cut << (clean ? " (between blocks)" : "") << (ordered ? " ordered" : "");
	std::vector<Event> exp(m.events.begin(), m.events.begin() + ev); if (ordered) std::stable_sort(exp.begin(), exp.end(), [](const Event &a, const Event &b) { return a.kind < b.kind; });
	Callbacks c; bool thrown = false;
	try { if (ordered) ordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); else unordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); } catch (std::exception &) { thrown = true; }
	if (clean) { REQUIRE(!thrown, "a file that ends between two blocks is valid"); compare(c.ev, exp, "shortened file"); }
	else { REQUIRE(thrown, "a file that ends within a block was read without an error"); compare(c.ev, exp, "truncated file", true); }
	g.nontrivial(!clean && m.events.size() > 2);
}

// a medium that delivers less than asked for at a time, or fails
static void medium(pbt::Gen &g) {
	Made m = draw_file(g, g.chance(1, 2)); if (m.f.bytes.empty()) throw pbt::Discard{};
	std::string name = pbt::scratch_file("m.pbf"); m.f.save(name); bool ordered = g.chance(1, 3), fail = g.chance(2, 3); uint64_t after = g.below(m.f.bytes.size()), seed = g.bits64(), hits; if (g.chance(1, 5)) { after = m.f.boundary[g.below(m.f.boundary.size())]; if (after >= m.f.bytes.size()) after = 0; }
	g.note() << (fail ? " error after " + std::to_string(after) + " of " + std::to_string(m.f.bytes.size()) : " short reads") << (ordered ? " ordered" : ""); std::vector<Event> exp = m.events; if (ordered) std::stable_sort(exp.begin(), exp.end(), [](const Event &a, const Event &b) { return a.kind < b.kind; });
	Callbacks c; bool thrown = false;
	{ faults::Armed a(name, fail ? faults::io_error : faults::shorts, after, seed); try { if (ordered) ordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); else unordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); } catch (std::exception &) { thrown = true; } hits = faults::hits(); }
	unlink(name.c_str());
	if (fail && hits) { REQUIRE(thrown, "the medium failed after " << after << " of " << m.f.bytes.size() << " bytes without an error"); if (!ordered) compare(c.ev, exp, "failing medium", true); }
	else { REQUIRE(!thrown, "exception although the medium works"); compare(c.ev, exp, "short reads"); }
	g.label(fail ? "medium fails" : "short reads"); g.nontrivial(hits > 0);
}

// a file whose parts contradict each other: an error, and nothing invented
static std::string one_block(const std::string &group, unsigned strings, int64_t granularity = 100) { std::string st, o; put_bytes(st, 1, ""); for (unsigned i = 1; i < strings; ++i) put_bytes(st, 1, "s" + std::to_string(i)); put_bytes(o, 1, st); put_bytes(o, 2, group); if (granularity != 100) put_int(o, 17, granularity); return o; }
static std::string packed(const std::vector<uint64_t> &v) { std::string o; for (auto x : v) varint(o, x); return o; }
static void inconsistent(pbt::Gen &g) {
	Made m = draw_file(g, false); if (m.events.size() > 40) throw pbt::Discard{};
	bool has_header = m.f.bytes.size() > 14 && m.f.bytes.substr(0, 30).find("OSMHeader") != std::string::npos, has_data = false; { for (size_t i = 0; i < m.f.boundary.size(); ++i) { size_t b = m.f.boundary[i]; if (b < m.f.bytes.size() && m.f.bytes.substr(b + 4, 9) == std::string("\x0a\x07OSMData", 9)) has_data = true; } }
	Block B; std::vector<Way> ws; std::vector<Event> more; unsigned n = 1 + g.below(6); for (unsigned i = 0; i < n; ++i) { Way w; w.id = i + 1; w.nodes = {i + 1ull, i + 2ull}; w.tags = {{"highway", "residential"}}; ws.push_back(w); Event e; e.kind = 1; e.id = w.id; e.nodes = w.nodes; e.tags = w.tags; more.push_back(e); } B.ways(ws);
	std::string p = B.encode(), z = deflated(p), b; const char *what = ""; bool must = true; unsigned k = g.below(30); std::vector<Event> extra; // extra: elements that may be reported before the error
	auto data = [&](const std::string &payload) { m.f.blob("OSMData", payload, (Compression)g.below(3)); };
	auto tagged = [&](const std::string &keys, const std::string &vals, unsigned strings) { // a node, way or relation with these tag lists
		unsigned t = g.below(3); std::string o, gr; put_int(o, 1, t == 0 ? zigzag(5) : 5); put_bytes(o, 2, keys); put_bytes(o, 3, vals); if (t == 0) { put_int(o, 8, 0); put_int(o, 9, 0); } put_bytes(gr, t == 0 ? 1 : t == 1 ? 3 : 4, o); data(one_block(gr, strings)); };
	auto dense = [&](const std::vector<uint64_t> &id, const std::vector<uint64_t> &la, const std::vector<uint64_t> &lo, const std::vector<uint64_t> *kv, unsigned strings, unsigned skip = 99, int64_t gran = 100) {
		std::string o, gr; if (skip != 0) put_bytes(o, 1, packed(id)); if (skip != 1) put_bytes(o, 8, packed(la)); if (skip != 2) put_bytes(o, 9, packed(lo)); if (kv) put_bytes(o, 10, packed(*kv)); put_bytes(gr, 2, o); data(one_block(gr, strings, gran));
		uint64_t a = 0; for (unsigned i = 0; i < id.size(); ++i) { a += (int64_t)(id[i] >> 1); Event e; e.kind = 0; e.id = a; e.lat = e.lon = 0; extra.push_back(e); } };
	std::vector<uint64_t> ids(1 + g.below(5), zigzag(3)), zero(ids.size(), 0), shorter(g.below(ids.size()), 0), longer(ids.size() + 1 + g.below(3), 0);
	std::vector<uint64_t> kv; for (unsigned i = 0; i < ids.size(); ++i) { unsigned t = g.below(3); for (unsigned j = 0; j < t; ++j) { kv.push_back(1 + j); kv.push_back(3 + g.below(2)); } kv.push_back(0); }
	unsigned bad_id = g.chance(1, 2) ? 5 : 5 + g.below(1u << 30); if (g.chance(1, 6)) bad_id = ~0u;
	auto relation = [&](const std::vector<uint64_t> &role, const std::vector<uint64_t> &id, const std::vector<uint64_t> &type) { std::string o, gr; put_int(o, 1, 9); put_bytes(o, 8, packed(role)); put_bytes(o, 9, packed(id)); put_bytes(o, 10, packed(type)); put_bytes(gr, 4, o); data(one_block(gr, 5)); };
	switch (k) {
	case 0: case 1: case 2: case 3: { // flipped bits in the compressed data; the checksum decides
		what = "damaged zlib stream"; unsigned f = 1 + g.below(3); for (unsigned i = 0; i < f; ++i) z[g.below(z.size())] ^= 1 << g.below(8);
		std::string out(p.size() + 1000, 0); z_stream s; memset(&s, 0, sizeof s); s.next_in = (Bytef *)&z[0]; s.avail_in = z.size(); s.next_out = (Bytef *)&out[0]; s.avail_out = out.size(); if (inflateInit(&s) != Z_OK) throw pbt::Discard{}; int r = inflate(&s, Z_FINISH); bool ok = r == Z_STREAM_END && s.total_out == p.size() && out.substr(0, p.size()) == p; bool other = r == Z_STREAM_END && !ok; inflateEnd(&s); if (other) throw pbt::Discard{};
		must = !ok; put_int(b, 2, p.size()); put_bytes(b, 3, z); m.f.block("OSMData", b); break; }
	case 4: what = "zlib stream cut"; z.resize(g.below(z.size())); put_int(b, 2, p.size()); put_bytes(b, 3, z); m.f.block("OSMData", b); break;
	case 5: case 6: what = "zlib data with wrong size (too large)"; put_int(b, 2, p.size() + 1 + g.small(5000)); put_bytes(b, 3, z); m.f.block("OSMData", b); break;
	case 7: case 8: { // declared size ends at a boundary between two fields or anywhere
		what = "zlib data with wrong size (too small)"; size_t d = g.below(p.size()); if (g.chance(1, 2)) { std::string st; for (auto &s : B.strings.list) put_bytes(st, 1, s); std::string o; put_bytes(o, 1, st); d = o.size(); } put_int(b, 2, d); put_bytes(b, 3, z); m.f.block("OSMData", b); break; }
	case 9: what = "raw data with wrong size"; put_bytes(b, 1, p); put_int(b, 2, g.chance(1, 2) ? p.size() + 1 + g.small(5000) : g.below(p.size())); m.f.block("OSMData", b); break;
	case 10: what = "raw and zlib data"; put_bytes(b, 1, p); put_int(b, 2, p.size()); put_bytes(b, 3, z); m.f.block("OSMData", b); break;
	case 11: what = "neither raw nor zlib data"; if (g.chance(1, 2)) put_int(b, 2, g.below(100)); if (g.chance(1, 2)) put_bytes(b, 4, z); m.f.block("OSMData", b); break;
	case 12: what = "zlib data without size"; put_bytes(b, 3, z); m.f.block("OSMData", b); break;
	case 13: { what = "block without data size"; std::string h; put_bytes(h, 1, g.chance(1, 2) ? "OSMData" : "Other"); for (int s = 24; s >= 0; s -= 8) m.f.bytes += (char)(h.size() >> s & 255); m.f.bytes += h; m.f.bytes += std::string(g.below(200), 'x'); break; }
	case 14: what = "two header blocks"; if (!has_header) m.f.header(raw_without_size, false); m.f.header(raw_without_size, g.chance(1, 2)); break;
	case 15: what = "header block after data"; if (!has_data) { m.f.add(B, zlib); extra = more; } m.f.header(raw_without_size, g.chance(1, 2)); break;
	case 16: { what = "tag lists of different length"; std::vector<uint64_t> a(g.below(4), 1), c = a; for (unsigned i = 0; i < a.size(); ++i) a[i] = 1 + i % 4; (g.chance(1, 2) ? a : c).push_back(4); if (a.size() == 4) a[3] = 4; tagged(packed(a), packed(c), 5); break; }
	case 17: { what = "key or value out of the string table"; std::vector<uint64_t> a = {1, 2, 3}, c = {1, 2, 3}; (g.chance(1, 2) ? a : c)[g.below(3)] = bad_id; tagged(packed(a), packed(c), 5); break; }
	case 18: what = "dense nodes with fewer latitudes"; dense(ids, shorter, zero, nullptr, 5); break;
	case 19: what = "dense nodes with fewer longitudes"; dense(ids, zero, shorter, nullptr, 5); break;
	case 20: what = "dense nodes with more latitudes"; dense(ids, longer, zero, nullptr, 5); break;
	case 21: what = "dense nodes with more longitudes"; dense(ids, zero, longer, nullptr, 5); break;
	case 22: what = "dense nodes without IDs, latitudes or longitudes"; dense(ids, zero, zero, nullptr, 5, g.below(3)); break;
	case 23: { what = "dense nodes with too many or too few tags"; for (auto &e : kv) (void)e; if (g.chance(1, 2)) { if (g.chance(1, 2)) { kv.push_back(1); kv.push_back(2); } kv.push_back(0); } else { kv.pop_back(); if (kv.empty()) { kv = {1, 2}; } } dense(ids, zero, zero, &kv, 5); break; }
	case 24: { what = "dense nodes with a tag out of the string table"; kv.assign(1, 1); kv.push_back(2); kv.push_back(3); kv.push_back(4); kv[g.below(4)] = bad_id; for (unsigned i = 0; i < ids.size(); ++i) kv.push_back(0); dense(ids, zero, zero, &kv, 5); break; }
	case 25: { what = "granularity 0"; std::vector<uint64_t> e; dense(ids, zero, zero, nullptr, 5, 99, 0); break; }
	case 26: { what = "element without ID"; unsigned t = g.below(3); std::string o, gr; if (t == 0) { put_int(o, 8, 0); put_int(o, 9, 0); } else if (g.chance(1, 2)) { put_bytes(o, 2, packed({1})); put_bytes(o, 3, packed({2})); } put_bytes(gr, t == 0 ? 1 : t == 1 ? 3 : 4, o); data(one_block(gr, 5)); break; }
	case 27: what = "member with a role out of the string table"; { std::vector<uint64_t> r(ids.size(), 1); r[g.below(r.size())] = bad_id; relation(r, ids, zero); } break;
	case 28: what = "member of unknown kind"; { std::vector<uint64_t> t(ids.size(), 2); t[g.below(t.size())] = 3 + g.small(1000); relation(zero, ids, t); } break;
	default: what = "members with fewer roles or kinds"; if (g.chance(1, 2)) relation(shorter, ids, zero); else relation(zero, ids, shorter);
	}
	bool tail = g.chance(1, 3); if (tail && must) m.f.add(B, zlib);
	std::string name = pbt::scratch_file("i.pbf"); m.f.save(name); g.note() << "; then: " << what; g.label(what); Callbacks c; bool thrown = false; bool ordered = g.chance(1, 4);
	try { if (ordered) ordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); else unordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); } catch (std::exception &) { thrown = true; }
	if (must) { REQUIRE(thrown, what << ": read without an error"); if (!ordered) { REQUIRE(c.ev.size() <= m.events.size() + extra.size(), what << ": elements after the damage: " << c.ev.size() << " instead of at most " << m.events.size() + extra.size()); for (size_t i = 0; i < c.ev.size(); ++i) if (i < m.events.size()) REQUIRE(same_event(c.ev[i], m.events[i]), what << ": element " << i << " before the damage is " << c.ev[i].str()); else REQUIRE_EQ(c.ev[i].id, extra[i - m.events.size()].id, what << ": ID of element " << i); } }
	else { REQUIRE(!thrown, what << ": harmless change rejected"); if (!ordered) { for (auto &e : more) m.events.push_back(e); compare(c.ev, m.events, what); } }
	g.nontrivial(must);
}

// arbitrary damage: no crash, no hang, at most an exception
static void damaged(pbt::Gen &g) {
	Made m = draw_file(g, g.chance(1, 2)); std::string &b = m.f.bytes; unsigned k = 1 + g.small(5); g.note() << " damage";
	for (unsigned i = 0; i < k && !b.empty(); ++i) { size_t p = g.below(b.size()); switch (g.below(4)) { case 0: b[p] ^= 1 << g.below(8); break; case 1: b[p] = (char)g.below(256); break; case 2: b.erase(p, 1 + g.below(4)); break; default: b.insert(p, 1 + g.below(3), (char)g.below(256)); } g.note() << " " << p; }
	std::string name = pbt::scratch_file("d.pbf"); m.f.save(name); Callbacks c; bool thrown = false;
	try { if (g.chance(1, 3)) ordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); else unordered_read_osm_pbf(name, c.node(), c.way(), c.relation()); } catch (std::exception &) { thrown = true; }
	g.label(thrown ? "rejected" : "accepted"); g.nontrivial(m.events.size() > 2);
}

pbt::Check pbt::make_check() {
	return {"P19", "primitives: at least two fields; tag_map: at least two non-empty tag sets in one object; read: more than three expected elements; truncated/damaged: a damaged file with more than two elements; inconsistent: the file has to be rejected; big: every case",
		{{"primitives", 40000, 1500000, primitives, 15}, {"tag_map", 20000, 500000, tag_map, 15}, {"read", 3000, 100000, read_files, 20}, {"medium", 6000, 100000, medium}, {"truncated", 1200, 40000, truncated, 20}, {"damaged", 1500, 50000, damaged, 20}, {"inconsistent", 2500, 80000, inconsistent, 20}, {"big", 12, 300, big, 300}}};
}
