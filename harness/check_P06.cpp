// P06: stored contraction hierarchies come back identical, damaged ones are rejected.
#include "ch_common.hpp"
#include "faults.hpp"
#include <routingkit/vector_io.h>
using namespace chc;

static std::string to_bytes(const ContractionHierarchy &ch) {
	std::string s;
	ch.write([&](const char *p, unsigned long long l) { s.append(p, l); });
	return s;
}

// bytes 20 to 23 are padding of the header and carry no information
static std::string canon(std::string s) { for (size_t i = 20; i < 24 && i < s.size(); ++i) s[i] = 0; return s; }

static void same_answers(pbt::Gen &g, const Graph &G, const ContractionHierarchy &a, const ContractionHierarchy &b, const std::vector<U> &D) {
	REQUIRE_EQ(b.node_count(), a.node_count(), "node count of the restored hierarchy");
	if (G.n == 0) return;
	ContractionHierarchyQuery p(a), q(b);
	for (unsigned i = 0; i < 25; ++i) {
		unsigned s = g.below(G.n), t = g.below(G.n);
		p.reset().add_source(s).add_target(t).run(); q.reset().add_source(s).add_target(t).run();
		REQUIRE_EQ(q.get_distance(), D[s][t], "distance " << s << "->" << t << " in the restored hierarchy");
		REQUIRE_EQ(q.get_arc_path(), p.get_arc_path(), "arc path in the restored hierarchy");
		REQUIRE_EQ(q.get_node_path(), p.get_node_path(), "node path in the restored hierarchy");
	}
}

static std::string slurp(const std::string &f) { std::ifstream in(f, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
static void spit(const std::string &f, const std::string &d) { std::ofstream o(f, std::ios::binary); o.write(d.data(), d.size()); }

static void round_trip(pbt::Gen &g, unsigned max_n) {
	WeightMode mode = draw_mode(g);
	Graph G; std::string how;
	if (g.chance(1, 30)) { G.n = 0; } else G = draw_graph(g, max_n, mode);
	ContractionHierarchy ch = G.n ? draw_ch(g, G, &how) : ContractionHierarchy::build(0, {}, {}, {});
	g.note() << G.str() << " " << how;
	auto D = ref_all_pairs(G);
	RoutingKit::check_contraction_hierarchy_for_errors(ch); // every built hierarchy is accepted
	std::string bytes = to_bytes(ch);
	ContractionHierarchy r;
	unsigned k = g.below(6);
	g.note() << " channel " << k;
	size_t pos = 0;
	auto source = [&](char *p, unsigned long long l) { REQUIRE(pos + l <= bytes.size(), "reads past the stored data"); memcpy(p, bytes.data() + pos, l); pos += l; };
	if (k == 0) { std::string f = pbt::scratch_file("ch"); ch.save_file(f); REQUIRE(canon(slurp(f)) == canon(bytes), "file content differs from the stream content"); r = ContractionHierarchy::load_file(f); unlink(f.c_str()); }
	else if (k == 1) { std::stringstream s; ch.write(s); REQUIRE(canon(s.str()) == canon(bytes), "stream content differs"); r = ContractionHierarchy::read(s); }
	else if (k == 2) { std::stringstream s(bytes); r = ContractionHierarchy::read(s, bytes.size()); }
	else if (k == 3) { r = ContractionHierarchy::read(source); REQUIRE_EQ(pos, bytes.size(), "all data consumed"); }
	else if (k == 4) { r = ContractionHierarchy::read(source, bytes.size()); REQUIRE_EQ(pos, bytes.size(), "all data consumed"); }
	else { // two hierarchies behind each other in one stream
		std::stringstream s; ch.write(s); ch.write(s); ContractionHierarchy x = ContractionHierarchy::read(s); r = ContractionHierarchy::read(s);
		REQUIRE(canon(to_bytes(x)) == canon(bytes), "first of two hierarchies in a stream differs");
	}
	RoutingKit::check_contraction_hierarchy_for_errors(r);
	REQUIRE(canon(to_bytes(r)) == canon(bytes), "writing a restored hierarchy gives different data");
	REQUIRE_EQ(r.order, ch.order, "contraction order"); REQUIRE_EQ(r.rank, ch.rank, "ranks");
	same_answers(g, G, ch, r, D);
	g.nontrivial(G.m() >= 2);
}

// more nodes than fit into 16 bits
static void huge(pbt::Gen &g) {
	U order; Graph G = draw_huge_graph(g, &order);
	ContractionHierarchy ch = ContractionHierarchy::build_given_order(order, G.tail, G.head, G.weight), r;
	std::string f = pbt::scratch_file("huge"); unlink(f.c_str()); ch.save_file(f); r = ContractionHierarchy::load_file(f); unlink(f.c_str());
	RoutingKit::check_contraction_hierarchy_for_errors(r);
	REQUIRE(canon(to_bytes(r)) == canon(to_bytes(ch)), "writing a restored hierarchy gives different data");
	REQUIRE_EQ(r.order, order, "contraction order"); ContractionHierarchyQuery q(r);
	Adj adj = build_adj(G); unsigned s = g.below(G.n); U ref = ref_sssp(G, adj, {{s, 0}});
	for (unsigned i = 0; i < 20; ++i) { unsigned t = g.below(G.n); REQUIRE_EQ(q.reset().add_source(s).add_target(t).run().get_distance(), ref[t], "distance " << s << "->" << t << " in the restored hierarchy"); }
	g.nontrivial();
}

// damaged data is rejected with an exception; never a crash, never silently accepted
static void damaged(pbt::Gen &g) {
	WeightMode mode = w_small;
	Graph G = draw_graph(g, 12, mode);
	ContractionHierarchy ch = draw_ch(g, G);
	std::string bytes = to_bytes(ch);
	std::string bad = bytes; unsigned k = g.below(5);
	const char *what = "";
	switch (k) {
	case 0: bad.resize(g.below(bytes.size())); what = "truncated"; break;
	case 1: bad += std::string(1 + g.below(70), (char)g.below(256)); what = "extended"; break;
	case 2: { unsigned i = g.below(8); bad[i] = (char)(bad[i] ^ (1 << g.below(8))); what = "wrong magic number"; break; }
	case 3: { // counts in the header changed
		unsigned f = g.below(3); unsigned off = 8 + 4 * f; unsigned v; memcpy(&v, &bad[off], 4);
		unsigned nv;
		switch (g.below(4)) { case 0: nv = v + 1 + g.below(40); break; case 1: nv = v - 1 - (unsigned)g.below(v + 1); break; case 2: nv = v + (1u << (20 + g.below(12))); break; default: nv = (unsigned)g.bits64(); }
		if (nv == v) throw pbt::Discard{};
		memcpy(&bad[off], &nv, 4); what = "wrong count in the header"; break;
	}
	default: bad = std::string(g.below(64), (char)g.below(256)); what = "garbage"; break;
	}
	g.note() << what << ", " << bytes.size() << " bytes originally, " << bad.size() << " now";
	g.label(std::string("damage:") + what);
	std::string f = pbt::scratch_file("bad"); spit(f, bad);
	bool thrown = false;
	try { ContractionHierarchy::load_file(f); } catch (std::exception &) { thrown = true; }
	unlink(f.c_str());
	REQUIRE(thrown, "a " << what << " file was loaded without an error");
	if (k != 3) {
		thrown = false;
		try { std::stringstream s(bad); ContractionHierarchy::read(s, bad.size()); } catch (std::exception &) { thrown = true; }
		REQUIRE(thrown, "a " << what << " stream was read without an error");
	}
	if (k == 0 || k == 2) {
		thrown = false;
		try { std::stringstream s(bad); ContractionHierarchy::read(s); } catch (std::exception &) { thrown = true; }
		REQUIRE(thrown, "a " << what << " stream was read without an error");
	}
	g.nontrivial(bytes.size() > 60);
}

// failing media are reported
static void io_faults(pbt::Gen &g) {
	Graph G = draw_graph(g, g.chance(1, 3) ? 200 : 12, w_small);
	ContractionHierarchy ch = draw_ch(g, G);
	std::string bytes = to_bytes(ch);
	unsigned k = g.below(6); bool thrown = false;
	g.note() << "fault " << k << " n=" << G.n;
	if (k == 0) { try { ch.save_file("/dev/full"); } catch (std::exception &) { thrown = true; } REQUIRE(thrown, "saving to a full device reported no error"); }
	else if (k == 1) { try { ch.save_file(pbt::scratch_file("no_such_directory") + "/x"); } catch (std::exception &) { thrown = true; } REQUIRE(thrown, "saving into a missing directory reported no error"); }
	else if (k == 2) { try { ContractionHierarchy::load_file(pbt::scratch_file("no_such_file")); } catch (std::exception &) { thrown = true; } REQUIRE(thrown, "loading a missing file reported no error"); }
	else if (k >= 4) { // the medium below the C++ library
		std::string f = pbt::scratch_file("medium"); ch.save_file(f); bool saving = k == 4; auto kind = (faults::Kind)g.below(saving ? 3 : 4); uint64_t after = g.below(bytes.size()), seed = g.bits64(), hits; g.note() << (saving ? " save" : " load") << " medium " << kind << " after " << after << " of " << bytes.size();
		ContractionHierarchy r; { faults::Armed a(f, kind, after, seed); try { if (saving) ch.save_file(f); else r = ContractionHierarchy::load_file(f); } catch (std::exception &) { thrown = true; } hits = faults::hits(); }
		if (kind >= faults::io_error && hits) REQUIRE(thrown, (saving ? "saving" : "loading") << " reported no error although the medium failed after " << after << " of " << bytes.size() << " bytes");
		if (kind < faults::io_error) { REQUIRE(!thrown, "exception although the medium works"); if (saving) r = ContractionHierarchy::load_file(f); REQUIRE(canon(to_bytes(r)) == canon(bytes), "the hierarchy does not come back"); }
		unlink(f.c_str());
	}
	else { // a sink that fails at an arbitrary point passes its exception on
		size_t limit = g.below(bytes.size()), n = 0;
		try { ch.write([&](const char *, unsigned long long l) { n += l; if (n > limit) throw std::runtime_error("sink full"); }); } catch (std::exception &) { thrown = true; }
		REQUIRE(thrown, "an error of the data sink got lost");
	}
	g.nontrivial();
}

// The size check on the header must be exact for every count the format can express.
// The data source stops right after the header, so no memory is needed.
struct Stop {};
static void size_check(pbt::Gen &g) {
	ContractionHierarchy tiny = ContractionHierarchy::build(1, {}, {}, {});
	std::string header = to_bytes(tiny).substr(0, 24);
	auto count = [&]() -> unsigned { switch (g.below(4)) { case 0: return g.below(2000); case 1: return (1u << g.below(32)) + (unsigned)g.below(3) - 1; case 2: return 4294967295u - (unsigned)g.below(600); default: return (unsigned)g.bits64(); } };
	unsigned n = g.below(1000), f = count(), b = count();
	if (f >= INVALID - 1) f = INVALID - 2;
	if (b >= INVALID - 1) b = INVALID - 2;
	memcpy(&header[8], &n, 4); memcpy(&header[12], &f, 4); memcpy(&header[16], &b, 4);
	uint64_t right = 24 + 4ull * (n + 2 * (n + 1ull) + 4ull * f + 4ull * b) + ((f + 511ull) / 512 + (b + 511ull) / 512) * 64;
	uint64_t size = right; unsigned k = g.below(5);
	if (k == 1) size = right & 0xffffffffull; else if (k == 2) size = right + 1 + g.below(200); else if (k == 3) size = right - 1 - g.below(20); else if (k == 4) size = 24 + (right - 24) % (1ull << 34);
	g.note() << "header counts " << n << " " << f << " " << b << ", right size " << right << ", claimed size " << size;
	bool accepted = false; unsigned calls = 0;
	try {
		ContractionHierarchy::read([&](char *p, unsigned long long l) { if (calls++ == 0) { memcpy(p, header.data(), std::min<size_t>(l, 24)); } else throw Stop{}; }, size);
	} catch (Stop &) { accepted = true; } catch (std::runtime_error &) {}
	REQUIRE_EQ(accepted, size == right, "a file of size " << size << " with a header that implies " << right << " bytes was accepted/rejected");
	g.nontrivial(f > 1000 || b > 1000);
}

pbt::Check pbt::make_check() {
	return Check{"P06", "the stored graph has at least two arcs, or the data was damaged or the medium failed", {
		{"round_trip", 40000, 800000, [](Gen &g) { round_trip(g, 14); }},
		{"round_trip_medium", 3000, 60000, [](Gen &g) { round_trip(g, 120); }},
		{"huge", 6, 60, huge, 300},
		{"damaged", 30000, 600000, damaged},
		{"size_check", 30000, 300000, size_check},
		{"io_faults", 4000, 40000, io_faults},
	}};
}
