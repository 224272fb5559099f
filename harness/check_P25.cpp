// P25: the tools that convert and compare vector files.
#include "tools.hpp"
#include <cmath>
#include <limits>
using namespace tools;

template <class T> static T draw_int(pbt::Gen &g) {
	typedef std::numeric_limits<T> L;
	switch (g.below(6)) {
	case 0: return L::min();
	case 1: return L::max();
	case 2: return (T)(L::max() - (T)g.below(3));
	case 3: return (T)(L::min() + (T)g.below(3));
	case 4: return (T)g.bits64();
	default: return (T)g.below(20);
	}
}
template <class T> static T draw_float(pbt::Gen &g) {
	typedef std::numeric_limits<T> L;
	switch (g.below(11)) {
	case 9: return L::denorm_min() * (T)(1 + g.below(1000)) * (g.chance(1, 2) ? 1 : -1); // far below the smallest normal number
	case 10: return g.chance(1, 2) ? -(T)0 : -L::infinity();
	case 0: return 0; case 1: return L::max(); case 2: return L::lowest(); case 3: return L::min(); case 4: return L::infinity();
	case 5: return (T)g.irange(-100, 100) / (T)10;
	case 6: return (T)g.irange(-1800000000, 1800000000) / (T)10000000; // a coordinate
	default: { T x; do { uint64_t b = g.bits64(); memcpy(&x, &b, sizeof x); } while (!(x == x)); return x; }
	}
}
static std::string draw_string(pbt::Gen &g) {
	std::string s; unsigned n = g.chance(1, 30) ? g.below(3000) : g.below(10);
	for (unsigned i = 0; i < n; ++i) switch (g.below(6)) { case 0: s += '\\'; break; case 1: s += 'n'; break; case 2: s += '\n'; break; case 3: s += (char)(1 + g.below(255)); break; default: s += (char)('a' + g.below(4)); }
	return s;
}
static std::string escape(const std::string &s) { std::string r; for (char c : s) if (c == '\\') r += "\\\\"; else if (c == '\n') r += "\\n"; else r += c; return r; }
static std::string pack(const std::vector<std::string> &v) { std::string r; for (auto &s : v) { r += s; r += '\0'; } return r; }
template <class T> static bool same(T a, T b) { return a == b && std::signbit((double)a) == std::signbit((double)b); }

// text -> binary -> text, and the verdicts of compare_vector
template <class T> static std::string text_of(T x) { std::ostringstream o; o.precision(std::numeric_limits<T>::max_digits10); o << +x; return o.str(); }
template <class T> static bool parse(const std::string &s, T &x) { char *e; errno = 0; if (std::numeric_limits<T>::is_integer) { if (std::numeric_limits<T>::is_signed) x = (T)strtoll(s.c_str(), &e, 10); else x = (T)strtoull(s.c_str(), &e, 10); } else if (sizeof(T) == 4) x = (T)strtof(s.c_str(), &e); else x = (T)strtod(s.c_str(), &e); return !s.empty() && !*e; }
static std::vector<std::string> lines(const std::string &s) { std::vector<std::string> r; size_t b = 0; while (b < s.size()) { size_t e = s.find('\n', b); if (e == std::string::npos) e = s.size(); r.push_back(s.substr(b, e - b)); b = e + 1; } return r; }

// the shorter file is named first, each with its size
static bool says_size(const std::string &out, const std::string &f, size_t n, const std::string &f2, size_t m) { std::string a = "\"" + (n < m ? f : f2) + "\" has only " + std::to_string(std::min(n, m)) + " ", b = "\"" + (n < m ? f2 : f) + "\" has " + std::to_string(std::max(n, m)) + "."; return out.find(a) != std::string::npos && out.find(b) != std::string::npos && out.find("equal size") != std::string::npos; }
template <class T, class D> static void numbers(pbt::Gen &g, const char *type, D draw) {
	std::vector<T> v(g.below(12)); for (auto &x : v) x = draw(g); g.note() << type; for (auto x : v) g.note() << " " << text_of(x);
	std::string f = pbt::scratch_file("v"), f2 = pbt::scratch_file("v2");
	std::string text; for (size_t i = 0; i < v.size(); ++i) { text += text_of(v[i]); if (i + 1 < v.size() || g.chance(2, 3)) text += "\n"; }
	if (g.chance(1, 3)) spit(f, "an older file, longer than what replaces it ........................................................................................................................");
	auto r = run("encode_vector", {type, f}, text); REQUIRE(!mentions_exception(r), "encode_vector rejects valid data: " << r.err);
	REQUIRE_EQ(slurp(f).size(), v.size() * sizeof(T), "encode_vector: size of the file");
	auto got = load<T>(f); for (size_t i = 0; i < v.size(); ++i) REQUIRE(same(got[i], v[i]), "encode_vector: element " << i << " is " << text_of(got[i]) << " instead of " << text_of(v[i]));
	r = run("decode_vector", {type, f}); REQUIRE(!mentions_exception(r), "decode_vector: " << r.err);
	auto l = lines(r.out); REQUIRE_EQ(l.size(), v.size(), "decode_vector: number of lines");
	for (size_t i = 0; i < v.size(); ++i) { T x; REQUIRE(parse(l[i], x) && same(x, v[i]), "decode_vector: element " << i << " is printed as \"" << l[i] << "\" instead of " << text_of(v[i])); }
	run("encode_vector", {type, f2}, r.out); REQUIRE(slurp(f) == slurp(f2), "encoding what decode_vector printed gives another file");
	// comparison
	auto w = v; unsigned less = 0, more = 0; long long first = -1;
	for (size_t i = 0; i < w.size(); ++i) { if (g.chance(1, 4)) w[i] = draw(g); if (v[i] < w[i]) ++less; if (w[i] < v[i]) ++more; if (v[i] != w[i] && first < 0) first = i; }
	if (g.chance(1, 4)) { if (g.chance(1, 2) && !w.empty()) w.resize(g.below(w.size())); else for (unsigned k = g.range(1, 3); k; --k) w.push_back(draw(g)); }
	save(f2, w); r = run("compare_vector", {type, f, f2}); bool says_same = r.out.find("vectors are the same") != std::string::npos, says_differ = r.out.find("vectors differ") != std::string::npos;
	if (w.size() != v.size()) REQUIRE(!says_same && !says_differ && says_size(r.out, f, v.size(), f2, w.size()), "compare_vector: vectors of different size: " << r.out);
	else {
		REQUIRE_EQ(says_same, first < 0, "compare_vector says: " << r.out); REQUIRE_EQ(says_differ, first >= 0, "compare_vector says: " << r.out);
		if (first >= 0) { auto has = [&](const std::string &s) { REQUIRE(r.out.find(s) != std::string::npos, "compare_vector should say \"" << s << "\" but says: " << r.out); };
			has(" " + std::to_string(less) + " elements are smaller in \"" + f + "\""); has(" " + std::to_string(more) + " elements are smaller in \"" + f2 + "\""); has(" " + std::to_string(v.size() - less - more) + " elements are the same"); has(" " + std::to_string(less + more) + " elements are different"); has("at index " + std::to_string(first) + "."); }
	}
	g.nontrivial(v.size() > 1); g.label(type);
}
static void strings(pbt::Gen &g) {
	std::vector<std::string> v(g.below(9)); for (auto &s : v) s = draw_string(g); g.note() << "string"; for (auto &s : v) g.note() << " \"" << escape(s) << "\"";
	std::string f = pbt::scratch_file("v"), f2 = pbt::scratch_file("v2"), text; for (auto &s : v) text += escape(s) + "\n";
	auto r = run("encode_vector", {"string", f}, text); REQUIRE(!mentions_exception(r), "encode_vector: " << r.err); REQUIRE(slurp(f) == pack(v), "encode_vector string: the file differs from the given strings");
	r = run("decode_vector", {"string", f}); REQUIRE(r.out == text, "decode_vector string prints " << r.out << " instead of " << text);
	auto w = v; size_t eq = 0; for (size_t i = 0; i < w.size(); ++i) { if (g.chance(1, 4)) w[i] = draw_string(g); else if (!w[i].empty() && g.chance(1, 5)) { // almost the same
			char &c = w[i][g.below(w[i].size())]; switch (g.below(3)) { case 0: if (isalpha((unsigned char)c)) c ^= 32; break; case 1: if ((char)(c + 1)) ++c; break; default: w[i].pop_back(); } }
		if (w[i] == v[i]) ++eq; } if (g.chance(1, 4)) { if (g.chance(1, 2) && !w.empty()) w.resize(g.below(w.size())); else w.resize(w.size() + g.range(1, 3), "x"); }
	spit(f2, pack(w)); r = run("compare_vector", {"string", f, f2}); bool says_same = r.out.find("vectors are the same") != std::string::npos, says_differ = r.out.find("vectors differ") != std::string::npos;
	if (w.size() != v.size()) REQUIRE(!says_same && !says_differ && says_size(r.out, f, v.size(), f2, w.size()), "compare_vector: " << r.out);
	else { REQUIRE_EQ(says_same, eq == v.size(), "compare_vector string: " << r.out); REQUIRE_EQ(says_differ, eq != v.size(), "compare_vector string: " << r.out); if (says_differ) REQUIRE(r.out.find(std::to_string(eq) + " elements are the same. " + std::to_string(v.size() - eq) + " elements are different") != std::string::npos, "compare_vector string: " << r.out); }
	g.nontrivial(v.size() > 1); g.label("string");
}
static void convert(pbt::Gen &g) {
	switch (g.below(11)) {
	case 0: return numbers<signed char>(g, "int8", draw_int<signed char>);
	case 1: return numbers<unsigned char>(g, "uint8", draw_int<unsigned char>);
	case 2: return numbers<short>(g, "int16", draw_int<short>);
	case 3: return numbers<unsigned short>(g, "uint16", draw_int<unsigned short>);
	case 4: return numbers<int>(g, "int32", draw_int<int>);
	case 5: return numbers<unsigned>(g, "uint32", draw_int<unsigned>);
	case 6: return numbers<long long>(g, "int64", draw_int<long long>);
	case 7: return numbers<unsigned long long>(g, "uint64", draw_int<unsigned long long>);
	case 8: return numbers<float>(g, "float32", draw_float<float>);
	case 9: return numbers<double>(g, "float64", draw_float<double>);
	default: return strings(g);
	}
}
// data that does not fit is rejected as a whole and leaves an existing file alone
static void reject(pbt::Gen &g) {
	static const struct { const char *type; long double lo, hi; } T[] = {{"int8", -128, 127}, {"uint8", 0, 255}, {"int16", -32768, 32767}, {"uint16", 0, 65535}, {"int32", -2147483648.0L, 2147483647.0L}, {"uint32", 0, 4294967295.0L}, {"int64", -9223372036854775808.0L, 9223372036854775807.0L}, {"uint64", 0, 18446744073709551615.0L}};
	auto &t = T[g.below(8)]; std::string bad; unsigned kind = g.below(4);
	long double off = 1 + (long double)(g.chance(1, 2) ? g.below(4) : g.below(1000000));
	if (g.chance(1, 2)) { long double span = t.hi - t.lo + 1; off = span * (1 + g.below(4)) - (g.chance(1, 2) ? 0 : (long double)g.below(3)); } // looks valid once the upper bits are cut off
	char buf[80]; if (kind == 0) { snprintf(buf, sizeof buf, "%.0Lf", t.hi + off); bad = buf; } else if (kind == 1) { snprintf(buf, sizeof buf, "%.0Lf", t.lo - off); bad = buf; } else if (kind == 2) bad = g.chance(1, 2) ? "" : "abc"; else bad = "99999999999999999999999999";
	unsigned n = g.below(5), at = g.below(n + 1); std::string text; for (unsigned i = 0; i <= n; ++i) text += (i == at ? bad : std::to_string(g.below(100))) + "\n";
	g.note() << t.type << " with \"" << bad << "\" at line " << at; std::string f = pbt::scratch_file("v"); bool old = g.chance(1, 2); unlink(f.c_str()); if (old) spit(f, "old");
	auto r = run("encode_vector", {t.type, f}, text); REQUIRE(mentions_exception(r), "encode_vector " << t.type << " accepts \"" << bad << "\""); REQUIRE(old ? slurp(f) == "old" : !exists(f), "encode_vector writes a file although the data is invalid");
	if (g.chance(1, 3)) { // a file whose size does not fit
		static const std::pair<const char *, unsigned> w[] = {{"int16", 2}, {"uint32", 4}, {"float64", 8}, {"int64", 8}}; auto &p = w[g.below(4)]; unsigned k = 1 + g.below(p.second - 1); spit(f, std::string(p.second * g.below(5) + k, 'a'));
		r = run("decode_vector", {p.first, f}); REQUIRE(mentions_exception(r) && r.out.empty(), "decode_vector accepts a file of impossible size");
		r = run("compare_vector", {p.first, f, f}); REQUIRE(mentions_exception(r) && r.out.empty(), "compare_vector accepts a file of impossible size");
	}
	r = run("decode_vector", {t.type, f + ".missing"}); REQUIRE(mentions_exception(r) && r.out.empty(), "decode_vector: missing file not reported");
	if (g.chance(1, 4)) { // no such type
		std::string type = g.pick(std::vector<std::string>{"int", "uint", "int7", "uint31", "float", "double", "strin", "strings", "", "uint32 ", "Uint32", "int128", "bool", "float16", "int321"}); bool old = g.chance(1, 2); unlink(f.c_str()); if (old) spit(f, "old!");
		r = run("encode_vector", {type, f}, "1\n2\n"); REQUIRE(mentions_exception(r), "encode_vector accepts the type \"" << type << "\""); REQUIRE(old ? slurp(f) == "old!" : !exists(f), "encode_vector writes a file of an unknown type"); spit(f, "12345678"); r = run("decode_vector", {type, f}); REQUIRE(mentions_exception(r) && r.out.empty(), "decode_vector accepts the type \"" << type << "\""); r = run("compare_vector", {type, f, f}); REQUIRE(mentions_exception(r) && r.out.find("same") == std::string::npos, "compare_vector accepts the type \"" << type << "\""); g.label("unknown type"); }
	g.nontrivial(n > 0); g.label(kind == 0 ? "too large" : kind == 1 ? "too small" : kind == 2 ? "no number" : "huge");
}
// long files: the counts and the place of the first difference
static void long_compare(pbt::Gen &g) {
	unsigned n = g.range(60000, 300000); uint64_t st = g.bits64(); std::vector<unsigned> v(n), w; for (auto &x : v) x = (unsigned)pbt::splitmix(st) | 1u; w = v; size_t less = 0, more = 0, first = n; unsigned from = g.chance(1, 2) ? 0 : g.below(n), odds = g.range(1, 3);
	for (unsigned i = from; i < n; ++i) { uint64_t r = pbt::splitmix(st); if (r % 4 >= odds) continue; if (r & 256) { w[i] = v[i] - 1; ++more; } else { if (v[i] == ~0u) continue; w[i] = v[i] + 1; ++less; } if (first == n) first = i; }
	std::string f = pbt::scratch_file("v"), f2 = pbt::scratch_file("v2"); save(f, v); save(f2, w); g.note() << n << " elements, " << less << " larger and " << more << " smaller in the second file, the first at " << first;
	auto has = [&](const std::string &out, const std::string &s) { REQUIRE(out.find(s) != std::string::npos, "compare_vector should say \"" << s << "\" but says: " << out); };
	auto r = run("compare_vector", {"uint32", f, f2});
	if (less + more) { has(r.out, "vectors differ"); has(r.out, " " + std::to_string(less) + " elements are smaller in \"" + f + "\""); has(r.out, " " + std::to_string(more) + " elements are smaller in \"" + f2 + "\""); has(r.out, " " + std::to_string(n - less - more) + " elements are the same"); has(r.out, " " + std::to_string(less + more) + " elements are different"); has(r.out, "at index " + std::to_string(first) + "."); }
	else has(r.out, "vectors are the same");
	auto strs = [&](const std::vector<unsigned> &x) { std::string o; o.reserve(x.size() * 8); for (auto y : x) { o += std::to_string(y % 100000); o += '\0'; } return o; };
	size_t eq = 0; for (unsigned i = 0; i < n; ++i) eq += v[i] % 100000 == w[i] % 100000; spit(f, strs(v)); spit(f2, strs(w)); r = run("compare_vector", {"string", f, f2});
	if (eq == n) has(r.out, "vectors are the same"); else has(r.out, std::to_string(eq) + " elements are the same. " + std::to_string(n - eq) + " elements are different");
	std::string text; for (auto x : v) { text += std::to_string(x); text += '\n'; } r = run("encode_vector", {"uint32", f}, text); REQUIRE(load<unsigned>(f) == v, "encode_vector: a long file is not written as given"); r = run("decode_vector", {"uint32", f}); REQUIRE(r.out == text, "decode_vector: a long file is not printed as given");
	g.nontrivial(less + more > 0); g.label("long");
}
static void constant(pbt::Gen &g) {
	unsigned n = g.below(2000), v = draw_int<unsigned>(g); std::string f = pbt::scratch_file("v"); g.note() << n << " x " << v;
	auto r = run("generate_constant_vector", {std::to_string(n), std::to_string(v), f}); REQUIRE(load<unsigned>(f) == std::vector<unsigned>(n, v) && slurp(f).size() == n * 4ul, "generate_constant_vector");
	// random lists: right length, in range, and reproducible
	unsigned nodes = g.chance(1, 3) ? 1 + g.below(5) : g.chance(1, 4) ? 4294967295u - g.below(3000000000u) : 1 + g.below(1000000), q = g.below(50), seed = g.below(1000); std::string f2 = pbt::scratch_file("w"), f3 = pbt::scratch_file("x"); std::string count = std::to_string(nodes);
	if (g.chance(1, 3)) { nodes = 1 + g.below(300); save(f3, std::vector<unsigned>(nodes, 7)); count = f3; }
	run("generate_random_node_list", {count, std::to_string(q), std::to_string(seed), f}); run("generate_random_node_list", {count, std::to_string(q), std::to_string(seed), f2}); auto a = load<unsigned>(f);
	REQUIRE_EQ(a.size(), (size_t)q, "generate_random_node_list: length"); for (auto x : a) REQUIRE(x < nodes, "generate_random_node_list: node " << x << " of " << nodes); REQUIRE(a == load<unsigned>(f2), "generate_random_node_list: same seed, other list");
	if (g.chance(1, 4)) { // the seed selects the list
		std::set<std::string> seen; for (unsigned i = 0; i < 4; ++i) { run("generate_random_node_list", {"1000000", "40", std::to_string(seed * 16 + i * 5), f}); seen.insert(slurp(f));  }
		REQUIRE_EQ(seen.size(), (size_t)4, "generate_random_node_list: number of different lists for four seeds"); }
	unsigned period = g.chance(1, 4) ? 4294967295u - g.below(3000000000u) : 1 + g.below(100000); save(f3 + "p", std::vector<unsigned>{period}); std::string times = std::to_string(q); if (g.chance(1, 3)) { save(f3 + "q", std::vector<unsigned>(q, 3)); times = f3 + "q"; } run("generate_random_source_times", {times, std::to_string(seed), f3 + "p", f}); a = load<unsigned>(f);
	REQUIRE_EQ(a.size(), (size_t)q, "generate_random_source_times: length"); for (auto x : a) REQUIRE(x < period, "generate_random_source_times: time " << x << " of " << period); if (period > 1000 && q >= 20) REQUIRE(std::set<unsigned>(a.begin(), a.end()).size() > 3, "generate_random_source_times: the times are not random");
	run("generate_test_queries", {std::to_string(nodes), std::to_string(q), std::to_string(seed), f, f2}); a = load<unsigned>(f); auto b = load<unsigned>(f2);
	REQUIRE(a.size() == q && b.size() == q, "generate_test_queries: length"); for (auto x : a) REQUIRE(x < nodes, "generate_test_queries: source"); for (auto x : b) REQUIRE(x < nodes, "generate_test_queries: target");
	if (g.chance(1, 4)) { run("generate_test_queries", {"1000000", "40", std::to_string(seed), f, f2}); a = load<unsigned>(f); b = load<unsigned>(f2); std::set<unsigned> sa(a.begin(), a.end()), sb(b.begin(), b.end()); REQUIRE(a.size() == 40 && b.size() == 40 && sa.size() > 5 && sb.size() > 5 && a != b, "generate_test_queries: sources or targets are not random"); }
	g.nontrivial(n > 1 && q > 1); g.label("generators");
}
pbt::Check pbt::make_check() {
	return {"P25", "non-trivial: at least two elements are converted and compared, a broken line among valid ones, a constant and a random vector of at least two elements",
		{{"convert", 2500, 40000, convert}, {"reject", 1000, 15000, reject}, {"long", 40, 600, long_compare}, {"generate", 300, 5000, constant}}};
}
