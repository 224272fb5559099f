// P12: BitVector behaves like an array of bits under every history of operations.
#include "pbt.hpp"
#include <routingkit/bit_vector.h>
#include <map>
#include <set>
using RoutingKit::BitVector;
typedef std::vector<char> M;

static bool huge_sizes = false;
static uint64_t draw_size(pbt::Gen &g) {
	if (huge_sizes && g.chance(1, 2)) return 65536 + (g.chance(1, 2) ? g.below(4) * 512 + g.below(5) : g.below(70000));
	static const std::vector<uint64_t> edge = {0, 1, 63, 64, 65, 127, 128, 448, 511, 512, 513, 575, 576, 1023, 1024, 1025, 1536, 2048};
	switch (g.below(3)) {
	case 0: return g.pick(edge);
	case 1: return g.below(130);
	default: return g.below(g.thorough() ? 5000 : 1700);
	}
}

static void compare(const BitVector &b, const M &m) {
	REQUIRE_EQ(b.size(), (uint64_t)m.size(), "size");
	REQUIRE_EQ(b.empty(), m.empty(), "empty");
	uint64_t pop = 0;
	for (uint64_t i = 0; i < m.size(); ++i) { REQUIRE_EQ(b.is_set(i), (bool)m[i], "bit " << i << " of " << m.size()); pop += m[i]; }
	REQUIRE_EQ(b.population_count(), pop, "population_count");
	REQUIRE_EQ(b.count_true(), pop, "count_true");
	REQUIRE_EQ(b.count_false(), m.size() - pop, "count_false");
	REQUIRE_EQ(b.are_all_set(), pop == m.size(), "are_all_set, " << pop << " of " << m.size() << " bits set");
	REQUIRE_EQ(b.is_any_set(), pop != 0, "is_any_set, " << pop << " of " << m.size() << " bits set");
	REQUIRE_EQ(b.uint512_count(), (uint64_t)(m.size() + 511) / 512, "uint512_count");
	if (!m.empty()) {
		REQUIRE((uintptr_t)b.data() % 64 == 0, "the array is not aligned on 512 bit");
		for (uint64_t i = 0; i < b.uint512_count() * 8; ++i) {
			uint64_t w = 0;
			for (unsigned k = 0; k < 64; ++k) if (i * 64 + k < m.size() && m[i * 64 + k]) w |= 1ull << k;
			REQUIRE_EQ(b.data()[i], w, "word " << i << " of the array (padding must be zero)");
		}
	}
}

struct Val { BitVector b; M m; };

static void history(pbt::Gen &g) {
	std::vector<Val> v(3);
	unsigned steps = 1 + g.small(g.thorough() ? 60 : 25);
	unsigned growth = 0, bulk = 0, binary = 0;
	for (unsigned st = 0; st < steps; ++st) {
		unsigned x = g.below(3), y = g.below(3);
		Val &a = v[x]; Val &b = v[y];
		unsigned op = g.below(24);
		g.note() << " [" << x << "] ";
		switch (op) {
		case 0: { uint64_t n = draw_size(g); bool i = g.chance(1, 2); g.note() << "=BitVector(" << n << "," << i << ")"; a.b = BitVector(n, i); a.m = M(n, i); break; }
		case 1: { uint64_t n = draw_size(g); g.note() << "=BitVector(" << n << ",uninit)"; a.b = BitVector(n, BitVector::uninitialized);
			REQUIRE_EQ(a.b.size(), n, "size"); a.m = M(n); for (uint64_t i = 0; i < n; ++i) a.m[i] = a.b.is_set(i); break; }
		case 2: case 3: case 4: { uint64_t n = draw_size(g); bool i = g.chance(1, 2); g.note() << "resize(" << n << "," << i << ") from " << a.m.size(); ++growth; a.b.resize(n, i); a.m.resize(n, i); break; }
		case 5: { uint64_t n = draw_size(g), o = a.m.size(); g.note() << "resize(" << n << ",uninit) from " << o; ++growth; a.b.resize(n, BitVector::uninitialized); a.m.resize(n);
			REQUIRE_EQ(a.b.size(), n, "size"); for (uint64_t i = o; i < n; ++i) a.m[i] = a.b.is_set(i); break; }
		case 6: { uint64_t p = draw_size(g); unsigned k = g.below(3); uint64_t o = a.m.size(); g.note() << "make_large_enough_for(" << p << "," << k << ") from " << o; ++growth;
			if (k == 2) a.b.make_large_enough_for(p, BitVector::uninitialized); else a.b.make_large_enough_for(p, k == 1);
			REQUIRE(a.b.size() > p, "not large enough: " << a.b.size());
			REQUIRE(o <= p ? true : a.b.size() == o, "resized a large enough vector to " << a.b.size());
			a.m.resize(a.b.size(), k == 1);
			if (k == 2) for (uint64_t i = o; i < a.m.size(); ++i) a.m[i] = a.b.is_set(i);
			break; }
		case 7: case 8: { // a burst of single bit operations
			if (a.m.empty()) { g.note() << "-"; break; }
			unsigned k = 1 + g.small(30);
			g.note() << "single";
			for (unsigned i = 0; i < k; ++i) {
				uint64_t p = g.below(a.m.size()); bool val = g.chance(1, 2);
				switch (g.below(5)) {
				case 0: a.b.set(p); a.m[p] = 1; g.note() << " set " << p; break;
				case 1: a.b.reset(p); a.m[p] = 0; g.note() << " reset " << p; break;
				case 2: a.b.toggle(p); a.m[p] ^= 1; g.note() << " toggle " << p; break;
				case 3: a.b.set(p, val); a.m[p] = val; g.note() << " set " << p << "," << val; break;
				case 4: a.b.set_if(p, val); a.m[p] |= val; g.note() << " set_if " << p << "," << val; break;
				}
			}
			break; }
		case 9: g.note() << "set_all"; ++bulk; a.b.set_all(); a.m.assign(a.m.size(), 1); break;
		case 10: { bool i = g.chance(1, 2); g.note() << "set_all " << i; ++bulk; a.b.set_all(i); a.m.assign(a.m.size(), i); break; }
		case 11: g.note() << "reset_all"; ++bulk; a.b.reset_all(); a.m.assign(a.m.size(), 0); break;
		case 12: g.note() << "inplace_not"; ++bulk; a.b.inplace_not(); for (auto &c : a.m) c ^= 1; break;
		case 13: g.note() << "=~[" << y << "]"; ++bulk; { M m = b.m; for (auto &c : m) c ^= 1; a.b = ~b.b; a.m = m; } break;
		case 14: case 15: case 16: { // combine with a vector of the same size
			unsigned k = g.below(3), cat = g.below(5); uint64_t seed = g.bits64(); bool self = g.chance(1, 8);
			BitVector o(a.m.size()); M om(a.m.size());
			if (self) { o = a.b; om = a.m; }
			else if (b.m.size() == a.m.size() && g.chance(1, 2)) { o = b.b; om = b.m; }
			else { unsigned dens = g.below(4); for (uint64_t i = 0; i < om.size(); ++i) { uint64_t r = pbt::splitmix(seed); om[i] = dens == 0 ? 1 : dens == 1 ? 0 : dens == 2 ? r & 1 : (r % 20 == 0); o.set(i, om[i]); } }
			M e(om.size()); for (uint64_t i = 0; i < e.size(); ++i) e[i] = k == 0 ? (a.m[i] | om[i]) : k == 1 ? (a.m[i] & om[i]) : (a.m[i] ^ om[i]);
			g.note() << (k == 0 ? "|" : k == 1 ? "&" : "^") << " form " << cat << (self ? " self" : "") << " size " << om.size(); ++binary;
			BitVector r, sa = a.b, so = o;
			if (cat == 0) {
				const BitVector &rhs = self ? a.b : o;
				BitVector &ret = k == 0 ? (a.b |= rhs) : k == 1 ? (a.b &= rhs) : (a.b ^= rhs);
				REQUIRE(&ret == &a.b, "assignment operator returns another object"); a.m = e; if (!self) compare(o, om); break; }
			if (cat == 1) { r = k == 0 ? (a.b | o) : k == 1 ? (a.b & o) : (a.b ^ o); compare(a.b, a.m); compare(o, om); }
			if (cat == 2) { r = k == 0 ? (std::move(sa) | o) : k == 1 ? (std::move(sa) & o) : (std::move(sa) ^ o); compare(o, om); }
			if (cat == 3) { r = k == 0 ? (a.b | std::move(so)) : k == 1 ? (a.b & std::move(so)) : (a.b ^ std::move(so)); compare(a.b, a.m); }
			if (cat == 4) r = k == 0 ? (std::move(sa) | std::move(so)) : k == 1 ? (std::move(sa) & std::move(so)) : (std::move(sa) ^ std::move(so));
			a.b = std::move(r); a.m = e; break; }
		case 17: g.note() << "copy of [" << y << "] (size " << b.m.size() << ")"; { BitVector c(b.b); compare(c, b.m); M m = b.m; a.b = c; a.m = m; compare(c, m); } break;
		case 18: if (x == y) { g.note() << "self assign"; BitVector &r = a.b; a.b = r; break; }
			g.note() << "move from [" << y << "]"; { BitVector c(std::move(b.b)); compare(b.b, M()); a.b = std::move(c); a.m = b.m; b.m.clear(); } break;
		case 19: g.note() << "swap [" << y << "]"; a.b.swap(b.b); std::swap(a.m, b.m); break;
		case 20: { uint64_t n = draw_size(g), seed = g.bits64(); g.note() << "=make_bit_vector(" << n << ")"; M m(n); for (auto &c : m) c = pbt::splitmix(seed) & 1; a.b = RoutingKit::make_bit_vector(n, [&](uint64_t i) { return (bool)m[i]; }); a.m = m; break; }
		case 21: { if (a.m.empty()) { g.note() << "-"; break; } // direct access to the array
			uint64_t w = g.below(a.b.uint512_count() * 8), val = g.bits64(); g.note() << "data()[" << w << "]=" << val << "; reset_all_padding_bits"; a.b.data()[w] = val; a.b.reset_all_padding_bits();
			for (unsigned k = 0; k < 64; ++k) if (w * 64 + k < a.m.size()) a.m[w * 64 + k] = val >> k & 1;
			break; }
		case 22: { // the same value with few differing bits, for the comparisons
			a.b = b.b; a.m = b.m; g.note() << "near copy of [" << y << "]"; if (!a.m.empty() && x != y) { uint64_t p = g.chance(1, 2) ? a.m.size() - 1 : g.below(a.m.size()); a.b.toggle(p); a.m[p] ^= 1; } break; }
		case 23: g.note() << "=empty"; a.b = BitVector(); a.m.clear(); break;
		}
		for (auto &z : v) compare(z.b, z.m);
		// == and the order
		for (auto &p : v) for (auto &q : v) {
			bool eq = p.m == q.m, lt = p.b < q.b, gt = q.b < p.b;
			REQUIRE_EQ(p.b == q.b, eq, "== of sizes " << p.m.size() << " and " << q.m.size());
			REQUIRE_EQ(p.b != q.b, !eq, "!=");
			REQUIRE(lt + gt + eq == 1, "not exactly one of <, >, == holds");
			REQUIRE_EQ(p.b > q.b, gt, ">"); REQUIRE_EQ(p.b <= q.b, !gt, "<="); REQUIRE_EQ(p.b >= q.b, !lt, ">=");
			for (auto &r : v) if (lt && q.b < r.b) REQUIRE(p.b < r.b, "< is not transitive");
		}
	}
	g.nontrivial(growth && (bulk || binary));
	if (growth) g.label("resized");
	if (bulk) g.label("bulk");
	if (binary) g.label("binary operator");
}

// every pair of sizes around the boundaries of the 512 bit blocks
static void resize_pairs(pbt::Gen &g) {
	uint64_t base_a = 512 * g.below(4), base_b = 512 * g.below(4);
	uint64_t a = base_a + g.below(7) >= 3 ? base_a + g.below(7) - (base_a ? 3 : 0) : base_a, b = base_b + g.below(5);
	if (b >= 2 && base_b) b -= 2;
	bool init = g.chance(1, 2), val = g.chance(1, 2); unsigned how = g.below(3);
	g.note() << "BitVector(" << a << "," << init << ") resize(" << b << "," << val << ") how " << how;
	BitVector v(a, init); M m(a, init);
	if (how == 1) { BitVector c(v); v = c; }
	if (how == 2) { v.resize(a + 1, init); v.resize(a); }
	v.resize(b, val); m.resize(b, val);
	compare(v, m);
	BitVector w(b); for (uint64_t i = 0; i < b; ++i) w.set(i, m[i]);
	REQUIRE(w == v, "equal bits, but not ==");
	REQUIRE(!(w < v) && !(v < w), "equal bits, but ordered");
	g.nontrivial(a && b);
}

// more bits than fit into 32 bits; the model is a fill value and the words that differ from it
struct Sparse {
	uint64_t n; bool fill; std::map<uint64_t, uint64_t> w;
	uint64_t words() const { return (n + 511) / 512 * 8; }
	uint64_t pad(uint64_t i) const { return i * 64 >= n ? 0 : n - i * 64 >= 64 ? ~0ull : (1ull << (n - i * 64)) - 1; }
	uint64_t word(uint64_t i) const { auto it = w.find(i); return it != w.end() ? it->second : (fill ? ~0ull : 0) & pad(i); }
	void put(uint64_t x, bool v) { uint64_t y = word(x / 64); y = v ? y | 1ull << x % 64 : y & ~(1ull << x % 64); w[x / 64] = y; }
	bool get(uint64_t x) const { return word(x / 64) >> x % 64 & 1; }
	void grow(uint64_t m, bool v) { // only with v == fill, or to a size with the same words
		uint64_t o = n; auto it = w.find((n - 1) / 64); uint64_t last = word((n - 1) / 64); (void)it; n = m; if (o % 64) { uint64_t add = ~((1ull << o % 64) - 1) & pad((o - 1) / 64); w[(o - 1) / 64] = v ? last | add : last; } }
	uint64_t pop() const { uint64_t p = fill ? n : 0; for (auto &x : w) { p += __builtin_popcountll(x.second); if (fill) p -= __builtin_popcountll(pad(x.first)); } return p; }
};
static void compare(const BitVector &b, const Sparse &m, const char *what) {
	REQUIRE_EQ(b.size(), m.n, what << ": size"); auto it = m.w.begin(); const uint64_t *d = b.data(); uint64_t f = m.fill ? ~0ull : 0, full = m.n / 64;
	for (uint64_t i = 0; i < m.words(); ++i) { uint64_t e; if (it != m.w.end() && it->first == i) { e = it->second; ++it; } else e = i < full ? f : f & m.pad(i); if (d[i] != e) pbt::fail(std::string(what) + ": word " + std::to_string(i) + " of " + std::to_string(m.words()) + " is " + std::to_string(d[i]) + " instead of " + std::to_string(e)); }
	uint64_t pop = m.pop(); REQUIRE_EQ(b.population_count(), pop, what << ": population_count"); REQUIRE_EQ(b.count_false(), m.n - pop, what << ": count_false"); REQUIRE_EQ(b.are_all_set(), pop == m.n, what << ": are_all_set"); REQUIRE_EQ(b.is_any_set(), pop != 0, what << ": is_any_set"); REQUIRE_EQ(b.uint512_count(), m.words() / 8, what << ": uint512_count");
}
static void gigantic(pbt::Gen &g) {
	const uint64_t G = 1ull << 32; Sparse m; m.n = G + (g.chance(1, 3) ? g.below(3) : g.below(1u << 20)) + 1; m.fill = g.chance(1, 2); BitVector b; unsigned how = g.below(3);
	auto pos = [&]() { switch (g.below(4)) { case 0: return m.n - 1 - g.below(3); case 1: return G - 1 + g.below(std::min<uint64_t>(m.n - G + 1, 600)); case 2: return (uint64_t)g.below(600); default: return (uint64_t)g.below(m.n); } };
	g.note() << "size " << m.n << " fill " << m.fill << " how " << how;
	if (how == 0) b = BitVector(m.n, m.fill);
	else if (how == 1) { b = BitVector(1000, m.fill); b.resize(m.n, m.fill); }
	else { uint64_t to = m.n; m.n = G - g.below(1000); b = BitVector(m.n, m.fill); uint64_t x = m.n - 1; b.toggle(x); m.put(x, !m.fill); b.resize(to, m.fill); m.grow(to, m.fill); }
	compare(b, m, "construction");
	for (unsigned i = 0; i < 12; ++i) { uint64_t x = pos(); bool v = g.chance(2, 3) != m.fill; switch (g.below(4)) { case 0: b.set(x, v); m.put(x, v); break; case 1: b.toggle(x); m.put(x, !m.get(x)); break; case 2: b.reset(x); m.put(x, false); break; default: b.set(x); m.put(x, true); } g.note() << " " << x; REQUIRE_EQ(b.is_set(x), m.get(x), "bit " << x); if ((x ^ G) < m.n) REQUIRE_EQ(b.is_set(x ^ G), m.get(x ^ G), "bit " << (x ^ G)); }
	compare(b, m, "single bits");
	switch (g.below(5)) {
	case 0: { BitVector c = b; compare(c, m, "copy"); REQUIRE(c == b && !(c < b) && !(b < c), "a copy differs"); uint64_t x = pos(); c.toggle(x); REQUIRE(!(c == b) && (c < b) != (b < c), "vectors that differ at bit " << x << " are taken for the same"); break; }
	case 1: { b.inplace_not(); m.fill = !m.fill; for (auto &x : m.w) x.second = ~x.second & m.pad(x.first); compare(b, m, "inplace_not"); break; }
	case 2: { BitVector c(m.n, !m.fill); uint64_t x = pos(); c.set(x, m.fill); unsigned k = g.below(3); if (k == 0) b |= c; else if (k == 1) b &= c; else b ^= c; Sparse r{m.n, k == 0 ? true : k == 1 ? false : true, {}}; Sparse cs{m.n, !m.fill, {}}; cs.put(x, m.fill); std::set<uint64_t> ws; for (auto &y : m.w) ws.insert(y.first); ws.insert(x / 64); for (auto y : ws) r.w[y] = k == 0 ? m.word(y) | cs.word(y) : k == 1 ? m.word(y) & cs.word(y) : m.word(y) ^ cs.word(y); compare(b, r, "binary operator"); break; }
	case 3: { uint64_t to = G - 5 + g.below(10); g.note() << " resize " << to; if (to <= m.n) { Sparse r{to, m.fill, {}}; for (auto &x : m.w) if (x.first < r.words()) r.w[x.first] = x.second & r.pad(x.first); b.resize(to); compare(b, r, "shrink"); } break; }
	default: { bool v = g.chance(1, 2); b.set_all(v); compare(b, Sparse{m.n, v, {}}, "set_all"); b.make_large_enough_for(m.n - 1); REQUIRE_EQ(b.size(), m.n, "make_large_enough_for of a large enough vector"); }
	}
	g.nontrivial(true); g.label("more than 2^32 bits");
}

// long vectors, compared word by word
static void wide(pbt::Gen &g) {
	typedef std::vector<uint64_t> W; struct V { BitVector b; uint64_t n = 0; W w; }; V v[2]; unsigned lim = g.chance(1, 4) ? 26 : 22;
	auto words = [](uint64_t n) { return (n + 511) / 512 * 8; };
	auto trim = [&](W &w, uint64_t n) { w.resize(words(n), 0); for (uint64_t i = n / 64; i < w.size(); ++i) w[i] = i * 64 >= n ? 0 : w[i] & ((1ull << (n - i * 64)) - 1); };
	auto grow = [&](V &a, uint64_t m, bool x) { if (m < a.n) { a.n = m; trim(a.w, m); return; } uint64_t o = a.n; a.w.resize(words(m), 0); if (x) { if (o % 64) a.w[o / 64] |= ~((1ull << o % 64) - 1); for (uint64_t i = (o + 63) / 64; i < a.w.size(); ++i) a.w[i] = ~0ull; } a.n = m; trim(a.w, m); };
	auto check = [&](const V &a, const char *what) { REQUIRE_EQ(a.b.size(), a.n, what << ": size"); uint64_t pop = 0; for (uint64_t i = 0; i < a.w.size(); ++i) { if (a.b.data()[i] != a.w[i]) REQUIRE_EQ(a.b.data()[i], a.w[i], what << ": word " << i << " of " << a.w.size()); pop += __builtin_popcountll(a.w[i]); }
		REQUIRE_EQ(a.b.population_count(), pop, what << ": population_count"); REQUIRE_EQ(a.b.count_true(), pop, what << ": count_true"); REQUIRE_EQ(a.b.count_false(), a.n - pop, what << ": count_false"); REQUIRE_EQ(a.b.are_all_set(), pop == a.n, what << ": are_all_set"); REQUIRE_EQ(a.b.is_any_set(), pop != 0, what << ": is_any_set"); REQUIRE_EQ(a.b.uint512_count(), (uint64_t)a.w.size() / 8, what << ": uint512_count"); };
	auto size = [&] { unsigned e = g.range(10, lim); return g.chance(1, 3) ? (1ull << e) + g.below(3) - 1 : (1ull << (e - 1)) + g.below(1ull << (e - 1)); }; uint64_t s = g.bits64(); unsigned steps = 2 + g.below(6);
	for (unsigned k = 0; k < steps; ++k) {
		V &a = v[g.below(2)]; V &o = &a == v ? v[1] : v[0]; g.note() << " [" << (&a - v) << "] "; const char *what = "";
		switch (g.below(11)) {
		case 0: { uint64_t n = size(); bool x = g.chance(1, 2); g.note() << "BitVector(" << n << "," << x << ")"; what = "constructor"; a.b = BitVector(n, x); a.n = 0; a.w.clear(); grow(a, n, x); break; }
		case 1: case 2: { uint64_t n = size(); bool x = g.chance(1, 2); g.note() << "resize(" << n << "," << x << ") from " << a.n; what = "resize"; a.b.resize(n, x); grow(a, n, x); break; }
		case 3: { uint64_t p = size(); bool x = g.chance(1, 2); g.note() << "make_large_enough_for(" << p << "," << x << ") from " << a.n; what = "make_large_enough_for"; a.b.make_large_enough_for(p, x); REQUIRE(a.b.size() > p, "not large enough: " << a.b.size()); if (a.n > p) REQUIRE_EQ(a.b.size(), a.n, "resized a large enough vector"); else grow(a, a.b.size(), x); break; }
		case 4: { uint64_t n = size(); unsigned d = g.below(3); g.note() << "make_bit_vector(" << n << ")"; what = "make_bit_vector"; W w(words(n), 0); for (auto &x : w) x = d == 0 ? pbt::splitmix(s) : d == 1 ? pbt::splitmix(s) & pbt::splitmix(s) & pbt::splitmix(s) & pbt::splitmix(s) : pbt::splitmix(s) % 50 ? 0 : 1ull << pbt::splitmix(s) % 64; trim(w, n); a.b = RoutingKit::make_bit_vector(n, [&](uint64_t i) { return (bool)(w[i / 64] >> i % 64 & 1); }); a.n = n; a.w = w; break; }
		case 5: g.note() << "inplace_not"; what = "inplace_not"; a.b.inplace_not(); for (auto &x : a.w) x = ~x; trim(a.w, a.n); break;
		case 6: { bool x = g.chance(1, 2); g.note() << "set_all " << x; what = "set_all"; if (x && g.chance(1, 2)) a.b.set_all(); else if (!x && g.chance(1, 2)) a.b.reset_all(); else a.b.set_all(x); for (auto &y : a.w) y = x ? ~0ull : 0; trim(a.w, a.n); break; }
		case 7: { unsigned op = g.below(3); V c; c.n = a.n; c.w.resize(words(a.n)); for (auto &x : c.w) x = pbt::splitmix(s); trim(c.w, c.n); c.b = BitVector(c.n); for (uint64_t i = 0; i < c.w.size(); ++i) c.b.data()[i] = c.w[i]; g.note() << "operator " << op; what = "binary operator"; bool in = g.chance(1, 2); if (op == 0) { if (in) a.b |= c.b; else a.b = a.b | c.b; } else if (op == 1) { if (in) a.b &= c.b; else a.b = a.b & c.b; } else { if (in) a.b ^= c.b; else a.b = a.b ^ c.b; } for (uint64_t i = 0; i < c.w.size(); ++i) a.w[i] = op == 0 ? a.w[i] | c.w[i] : op == 1 ? a.w[i] & c.w[i] : a.w[i] ^ c.w[i]; break; }
		default: { g.note() << "copy, single bits"; what = "single bits"; if (g.chance(1, 2)) { a.b = o.b; a.n = o.n; a.w = o.w; } if (!a.n) break; unsigned c = 1 + g.below(4); for (unsigned i = 0; i < c; ++i) { uint64_t p = g.below(a.n); g.note() << " " << p; a.w[p / 64] ^= 1ull << p % 64; if (g.chance(1, 2)) a.b.toggle(p); else a.b.set(p, a.w[p / 64] >> p % 64 & 1); } }
		}
		check(a, what); bool eq = v[0].n == v[1].n && v[0].w == v[1].w, lt = v[0].b < v[1].b, gt = v[1].b < v[0].b; REQUIRE_EQ(v[0].b == v[1].b, eq, "== of sizes " << v[0].n << " and " << v[1].n); REQUIRE_EQ(v[0].b != v[1].b, !eq, "!= of sizes " << v[0].n << " and " << v[1].n); REQUIRE(lt + gt + eq == 1, "not exactly one of <, >, == holds");
		// one bit more or less makes it another vector
		if (a.n) { BitVector c = a.b; REQUIRE(c == a.b, "a copy is not ==");
			for (unsigned i = 0; i < 3; ++i) { uint64_t p = pbt::splitmix(s) % a.n; c.toggle(p); REQUIRE(!(c == a.b) && c != a.b && (c < a.b) != (a.b < c), "vectors of size " << a.n << " that differ at bit " << p << " are taken for the same"); c.toggle(p);
				BitVector one(a.n); one.set(p); REQUIRE(one.is_any_set() && one.population_count() == 1, "bit " << p << " of " << a.n << " not counted"); one.inplace_not(); REQUIRE_EQ(one.are_all_set(), false, "are_all_set without bit " << p << " of " << a.n); } }
	}
	g.nontrivial(v[0].n > 65536 || v[1].n > 65536);
}

pbt::Check pbt::make_check() {
	return {"P12", "a case is non-trivial if it resizes a vector and also applies a bulk or binary operation (histories), or resizes between two non-empty sizes (resize pairs); vectors of more than 2^32 bits always count",
		{{"history", 40000, 1500000, history}, {"history_huge", 150, 4000, [](pbt::Gen &g) { huge_sizes = true; struct R { ~R() { huge_sizes = false; } } r; history(g); }}, {"wide", 150, 5000, wide, 120}, {"resize_pairs", 8000, 100000, resize_pairs}, {"gigantic", 14, 200, gigantic, 120}}};
}
