// P18: vector and value files round trip exactly, failures are reported.
#include "pbt.hpp"
#include "faults.hpp"
#include <routingkit/vector_io.h>
#include <routingkit/bit_vector.h>
#include <cmath>
#include <thread>
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace RoutingKit;

template <class T> static bool same(const std::vector<T> &a, const std::vector<T> &b) { return a.size() == b.size() && (a.empty() || !memcmp(a.data(), b.data(), a.size() * sizeof(T))); }
static std::string slurp(const std::string &f) { std::ifstream in(f, std::ios::binary); std::stringstream s; s << in.rdbuf(); return s.str(); }
static void spit(const std::string &f, const std::string &d) { std::ofstream o(f, std::ios::binary); o.write(d.data(), d.size()); }
static size_t draw_len(pbt::Gen &g) { if (g.chance(1, 300)) return g.below(5000000); return g.chance(1, 12) ? g.below(200000) : g.small(3000); }
struct Pod { char c; int64_t x; };

template <class T> static std::vector<T> draw_vec(pbt::Gen &g) {
	size_t n = draw_len(g); std::vector<T> v(n); uint64_t s = g.bits64();
	for (auto &x : v) { uint64_t r = pbt::splitmix(s); memcpy((void *)&x, &r, std::min(sizeof r, sizeof(T))); }
	return v;
}
template <class T> static void rt(pbt::Gen &g, const char *name) {
	std::vector<T> v = draw_vec<T>(g);
	g.note() << name << " x " << v.size();
	std::string f = pbt::scratch_file("v");
	if (g.chance(1, 3)) spit(f, std::string(g.below(5000), 'x')); // an older, longer file is replaced
	switch (g.below(3)) {
	case 0: {
		save_vector(f, v);
		REQUIRE_EQ(slurp(f).size(), v.size() * sizeof(T), "file size");
		REQUIRE(same(load_vector<T>(f), v), "vector does not round trip through a file");
		break;
	}
	case 1: {
		std::stringstream s; write_vector(s, v); write_value(s, (uint32_t)4711);
		REQUIRE(same(read_vector<T>(s, v.size()), v), "vector does not round trip through a stream");
		REQUIRE_EQ(read_value<uint32_t>(s), 4711u, "value after a vector in a stream");
		bool thrown = false; try { read_value<uint32_t>(s); } catch (std::exception &) { thrown = true; }
		REQUIRE(thrown, "reading past the end of a stream reported no error");
		break;
	}
	default: {
		std::string d; size_t pos = 0;
		write_vector<T>([&](const char *p, unsigned long long l) { d.append(p, l); }, v);
		std::function<void(char *, unsigned long long)> src = [&](char *p, unsigned long long l) { if (pos + l > d.size()) throw std::runtime_error("end"); if (l) memcpy(p, d.data() + pos, l); pos += l; };
		REQUIRE(same(read_vector<T>(src, v.size()), v), "vector does not round trip through callbacks");
		REQUIRE_EQ(pos, d.size(), "consumed bytes");
	}
	}
	unlink(f.c_str());
	g.nontrivial(v.size() > 1);
}

static void pod(pbt::Gen &g) {
	switch (g.below(9)) {
	case 0: rt<unsigned>(g, "unsigned"); break; case 1: rt<int>(g, "int"); break; case 2: rt<float>(g, "float"); break;
	case 3: rt<double>(g, "double"); break; case 4: rt<unsigned char>(g, "uint8"); break; case 5: rt<uint64_t>(g, "uint64"); break;
	case 6: rt<int16_t>(g, "int16"); break; case 7: rt<char>(g, "char"); break; default: rt<int64_t>(g, "int64"); break;
	}
}

static void strings(pbt::Gen &g) {
	size_t n = g.chance(1, 250) ? 65530 + g.below(5000) : g.small(300); std::vector<std::string> v(n); if (n > 60000) for (size_t i = 0; i < n; ++i) v[i] = std::to_string(i * i % 1009); else
	for (auto &s : v) { size_t l = g.small(40); for (size_t i = 0; i < l; ++i) s += (char)(1 + g.below(255)); }
	if (n && g.chance(1, 10)) v[g.below(n)] = std::string(g.below(100000), 'y');
	g.note() << n << " strings";
	std::string f = pbt::scratch_file("s");
	if (g.chance(1, 3)) spit(f, std::string(g.below(5000), 'x'));
	save_vector(f, v);
	REQUIRE(load_vector<std::string>(f) == v, "strings do not round trip");
	unlink(f.c_str());
	g.nontrivial(n > 1);
}

static void bits(pbt::Gen &g) {
	uint64_t n = g.chance(1, 2) ? 512 * g.below(6) + (g.chance(1, 2) ? g.below(3) : 0) : g.small(20000);
	BitVector b(n, false); std::vector<bool> m(n);
	uint64_t s = g.bits64(); unsigned density = g.below(3);
	for (uint64_t i = 0; i < n; ++i) { bool x = density == 0 ? pbt::splitmix(s) % 100 == 0 : density == 1 ? pbt::splitmix(s) & 1 : true; m[i] = x; if (x) b.set(i); }
	g.note() << "bit vector of size " << n;
	BitVector r;
	std::string f = pbt::scratch_file("b");
	if (g.chance(1, 2)) { save_bit_vector(f, b); r = load_bit_vector(f); }
	else {
		std::string d; size_t pos = 0;
		write_bit_vector([&](const char *p, unsigned long long l) { if (l) d.append(p, l); }, b);
		r = read_bit_vector([&](char *p, unsigned long long l) { if (pos + l > d.size()) throw std::runtime_error("end"); if (l) memcpy(p, d.data() + pos, l); pos += l; }, n);
	}
	unlink(f.c_str());
	REQUIRE_EQ(r.size(), n, "size of the restored bit vector");
	for (uint64_t i = 0; i < n; ++i) REQUIRE_EQ(r.is_set(i), (bool)m[i], "bit " << i);
	REQUIRE(r == b, "restored bit vector compares unequal");
	g.nontrivial(n > 1);
}

static void values(pbt::Gen &g) {
	std::string f = pbt::scratch_file("x");
	uint64_t v = g.bits64();
	save_value(f, v); REQUIRE_EQ(load_value<uint64_t>(f), v, "value");
	save_value(f, (float)v); REQUIRE_EQ(load_value<float>(f), (float)v, "float value");
	unsigned n = g.below(5); if (n == 1) n = 7;
	save_vector(f, std::vector<uint64_t>(n, v));
	bool thrown = false; try { load_value<uint64_t>(f); } catch (std::exception &) { thrown = true; }
	REQUIRE(thrown, "a file with " << n << " elements was loaded as a single value");
	unlink(f.c_str());
	g.nontrivial();
}

template <class F> static void must_throw(const F &f, const std::string &what) {
	bool thrown = false;
	try { f(); } catch (std::exception &) { thrown = true; }
	REQUIRE(thrown, what << " reported no error");
}

static void io_faults(pbt::Gen &g) {
	std::string f = pbt::scratch_file("f"), missing = pbt::scratch_file("missing"), nodir = missing + "/x";
	unsigned k = g.below(9);
	g.note() << "fault " << k;
	switch (k) {
	case 0: must_throw([&] { load_vector<unsigned>(missing); }, "loading a missing vector"); break;
	case 1: must_throw([&] { load_vector<std::string>(missing); }, "loading a missing string vector"); must_throw([&] { load_bit_vector(missing); }, "loading a missing bit vector"); break;
	case 2: { std::vector<unsigned> v = draw_vec<unsigned>(g); must_throw([&] { save_vector(nodir, v); }, "saving a vector into a missing directory"); break; }
	case 3: { must_throw([&] { save_vector(nodir, std::vector<std::string>(g.below(4), "abc")); }, "saving strings into a missing directory"); must_throw([&] { save_bit_vector(nodir, BitVector(g.below(2000), true)); }, "saving a bit vector into a missing directory"); break; }
	case 4: { std::vector<unsigned> v(1 + g.small(20000), 7); must_throw([&] { save_vector("/dev/full", v); }, "saving a vector of " + std::to_string(v.size()) + " elements to a full device"); break; }
	case 5: { std::vector<std::string> v(1 + g.small(20000), "abc"); must_throw([&] { save_vector("/dev/full", v); }, "saving " + std::to_string(v.size()) + " strings to a full device"); break; }
	case 6: { must_throw([&] { save_bit_vector("/dev/full", BitVector(g.small(300000), true)); }, "saving a bit vector to a full device"); must_throw([&] { save_value("/dev/full", 5u); }, "saving a value to a full device"); break; }
	case 7: { // file whose size does not fit
		size_t n = 4 * g.below(1000) + 1 + g.below(3); spit(f, std::string(n, 'a'));
		must_throw([&] { load_vector<unsigned>(f); }, "loading " + std::to_string(n) + " bytes as a vector of 4 byte elements");
		must_throw([&] { load_vector<float>(f); }, "loading " + std::to_string(n) + " bytes as a vector of floats");
		if (n % 2) must_throw([&] { load_vector<uint16_t>(f); }, "loading " + std::to_string(n) + " bytes as a vector of 2 byte elements");
		n = 8 * g.below(500) + 1 + g.below(7); spit(f, std::string(n, 'a'));
		must_throw([&] { load_vector<uint64_t>(f); }, "loading " + std::to_string(n) + " bytes as a vector of 8 byte elements"); must_throw([&] { load_vector<double>(f); }, "loading " + std::to_string(n) + " bytes as a vector of doubles");
		struct Three { char c[3]; }; n = 3 * g.below(500) + 1 + g.below(2); spit(f, std::string(n, 'a')); must_throw([&] { load_vector<Three>(f); }, "loading " + std::to_string(n) + " bytes as a vector of 3 byte elements");
		break;
	}
	default: { // bit vector files with a header that does not fit to the file
		uint64_t n = g.small(5000); save_bit_vector(f, BitVector(n, true)); std::string d = slurp(f);
		unsigned how = g.below(4);
		if (how == 0) d.resize(g.below(d.size()));
		else if (how == 1) d += std::string(1 + g.below(100), 'a');
		else {
			uint64_t h = how == 2 ? n + 512 + g.small(1ull << 62) : ~(uint64_t)0 - g.below(511);
			if (how == 3 && g.chance(1, 2)) d.resize(8);
			memcpy(&d[0], &h, 8);
		}
		g.note() << " bit vector file damaged: " << how;
		spit(f, d);
		must_throw([&] { load_bit_vector(f); }, "loading a damaged bit vector file");
	}
	}
	unlink(f.c_str());
	g.nontrivial();
}

// a stream that runs out in the middle
static void truncated_stream(pbt::Gen &g) {
	std::vector<unsigned> v = draw_vec<unsigned>(g); v.push_back(1);
	std::stringstream s; write_vector(s, v);
	std::string d = s.str(); d.resize(g.below(d.size()));
	std::stringstream t(d);
	g.note() << "stream of " << d.size() << " bytes for " << v.size() << " elements";
	must_throw([&] { read_vector<unsigned>(t, v.size()); }, "reading a vector from a truncated stream");
	g.nontrivial();
}

// more than 2^32 bytes: files with a hole are loaded, and a named pipe receives what is saved
struct Want { uint64_t at; unsigned char byte; };
static void hole(const std::string &f, uint64_t size, const std::vector<Want> &w) { unlink(f.c_str()); int fd = open(f.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600); if (fd < 0 || ftruncate(fd, size)) throw pbt::Discard{}; for (auto &x : w) if (pwrite(fd, &x.byte, 1, x.at) != 1) throw pbt::Discard{}; close(fd); }
struct Pipe { // counts and samples the bytes that arrive
	std::string f; uint64_t got = 0; std::vector<unsigned char> seen; std::thread t; bool equal = true; const unsigned char *exp; uint64_t len;
	Pipe(const std::string &f, const void *exp_, uint64_t len) : f(f), exp((const unsigned char *)exp_), len(len) { unlink(f.c_str()); if (mkfifo(f.c_str(), 0600)) throw pbt::Discard{}; t = std::thread([this] { int fd = open(this->f.c_str(), O_RDONLY); std::vector<unsigned char> b(1 << 20); ssize_t n; while ((n = read(fd, b.data(), b.size())) > 0) { if (got + n > this->len || memcmp(b.data(), exp + got, n)) equal = false; got += n; } close(fd); }); }
	void finish() { t.join(); unlink(f.c_str()); }
};
static void gigantic(pbt::Gen &g) {
	unsigned kind = g.below(5); std::string f = pbt::scratch_file("g"); uint64_t base = (uint64_t)1 << 32, extra = 8 * (1 + g.below(100000)); std::vector<Want> w; for (unsigned i = 0; i < 20; ++i) w.push_back({i < 10 ? g.below(base) : base + g.below(extra), (unsigned char)(1 + g.below(255))}); w.push_back({base + extra - 1, 77}); w.push_back({base, 99});
	auto last = [&](uint64_t at) { unsigned char b = 0; for (auto &x : w) if (x.at == at) b = x.byte; return b; };
	g.note() << "kind " << kind << ", " << base + extra << " bytes";
	if (kind == 0) { hole(f, base + extra, w); auto v = load_vector<unsigned char>(f); REQUIRE_EQ((uint64_t)v.size(), base + extra, "size of a vector of bytes"); for (auto &x : w) REQUIRE_EQ((unsigned)v[x.at], (unsigned)last(x.at), "byte " << x.at); }
	else if (kind == 1) { hole(f, base + extra, w); auto v = load_vector<uint64_t>(f); REQUIRE_EQ((uint64_t)v.size(), (base + extra) / 8, "size of a vector of 64 bit values"); for (auto &x : w) REQUIRE_EQ((unsigned)((unsigned char *)v.data())[x.at], (unsigned)last(x.at), "byte " << x.at); }
	else if (kind == 2) { std::vector<uint64_t> v((base + extra) / 8); for (auto &x : w) ((unsigned char *)v.data())[x.at] = x.byte; Pipe p(f, v.data(), v.size() * 8); std::string err; try { save_vector(f, v); } catch (std::exception &e) { err = e.what(); } p.finish(); REQUIRE_EQ(err, std::string(), "saving failed"); REQUIRE_EQ(p.got, v.size() * 8, "number of saved bytes"); REQUIRE(p.equal, "saved bytes differ"); }
	else { // bits: 2^32 bits are only 512 MiB
		uint64_t n = base + 512 * g.below(100) + g.below(512); uint64_t bytes = (n + 511) / 512 * 64 + 8; std::vector<uint64_t> on; for (unsigned i = 0; i < 30; ++i) on.push_back(i % 3 == 0 ? n - 1 - g.below(400) : i % 3 == 1 ? base - 1 + g.below(2) : g.below(n));
		BitVector b(n, false); for (auto x : on) b.set(x); std::vector<unsigned char> image(bytes); memcpy(image.data(), &n, 8); memcpy(image.data() + 8, b.data(), bytes - 8); g.note() << " bit vector of " << n << " bits";
		if (kind == 3) { Pipe p(f, image.data(), bytes); std::string err; try { save_bit_vector(f, b); } catch (std::exception &e) { err = e.what(); } p.finish(); REQUIRE_EQ(err, std::string(), "saving failed"); REQUIRE_EQ(p.got, bytes, "number of saved bytes"); }
		else { save_bit_vector(f, b); b = BitVector(); BitVector r = load_bit_vector(f); unlink(f.c_str()); REQUIRE_EQ(r.size(), n, "size of the loaded bit vector"); std::sort(on.begin(), on.end()); on.erase(std::unique(on.begin(), on.end()), on.end()); REQUIRE_EQ(r.population_count(), (uint64_t)on.size(), "number of set bits"); for (auto x : on) REQUIRE(r.is_set(x), "bit " << x << " is lost"); }
	}
	unlink(f.c_str()); g.nontrivial();
}

// the medium below the C++ library: transfers that are cut short or interrupted change nothing, one that fails is reported
static void medium(pbt::Gen &g) {
	std::string f = pbt::scratch_file("m"); unsigned what = g.below(6); bool saving = g.chance(1, 2); auto kind = (faults::Kind)g.below(saving ? 3 : 4); uint64_t seed = g.bits64();
	std::vector<unsigned> u; std::vector<uint64_t> l; std::vector<char> c; std::vector<std::string> st; BitVector b; uint64_t val = g.bits64();
	switch (what) { case 0: u = draw_vec<unsigned>(g); u.push_back(1); break; case 1: l = draw_vec<uint64_t>(g); l.push_back(1); break; case 2: c = draw_vec<char>(g); c.push_back('x'); break; case 3: st.resize(1 + g.small(3000)); for (auto &x : st) x.assign(g.below(20), 'a' + g.below(26)); break; case 4: b = BitVector(1 + g.small(300000), true); break; default:; }
	auto save = [&] { switch (what) { case 0: save_vector(f, u); break; case 1: save_vector(f, l); break; case 2: save_vector(f, c); break; case 3: save_vector(f, st); break; case 4: save_bit_vector(f, b); break; default: save_value(f, val); } };
	auto load = [&]() -> bool { switch (what) { case 0: return load_vector<unsigned>(f) == u; case 1: return load_vector<uint64_t>(f) == l; case 2: return load_vector<char>(f) == c; case 3: return load_vector<std::string>(f) == st; case 4: { BitVector r = load_bit_vector(f); return r.size() == b.size() && r == b; } default: return load_value<uint64_t>(f) == val; } };
	save(); REQUIRE(load(), "round trip"); uint64_t size = slurp(f).size(), after = g.below(size); static const char *names[] = {"short transfers", "interrupted calls", "an error", "an early end"};
	g.note() << (saving ? "saving" : "loading") << " kind " << what << " of " << size << " bytes with " << names[kind]; if (kind >= faults::io_error) g.note() << " after " << after; g.label(std::string(saving ? "save: " : "load: ") + names[kind]);
	bool thrown = false, equal = false; uint64_t hits; { faults::Armed a(f, kind, after, seed); try { if (saving) save(); else equal = load(); } catch (std::exception &) { thrown = true; } hits = faults::hits(); }
	if (kind >= faults::io_error && hits) REQUIRE(thrown, (saving ? "saving" : "loading") << " reported no error although the medium failed after " << after << " of " << size << " bytes");
	if (kind < faults::io_error) { REQUIRE(!thrown, "exception although the medium works"); if (saving) equal = load(); REQUIRE(equal, "the data does not come back"); }
	unlink(f.c_str()); g.nontrivial(hits > 0);
}

pbt::Check pbt::make_check() {
	return Check{"P18", "more than one element (round trips) or an injected fault", {
		{"pod_vectors", 30000, 500000, pod},
		{"string_vectors", 20000, 300000, strings},
		{"bit_vectors", 15000, 300000, bits},
		{"values", 5000, 50000, values},
		{"faults", 20000, 300000, io_faults},
		{"truncated_stream", 5000, 50000, truncated_stream},
		{"medium", 12000, 200000, medium},
		{"gigantic", 8, 40, gigantic, 300, 1, true},
	}};
}
