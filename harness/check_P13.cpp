// P13: ID mappers and filters agree with each other and with counting bits.
#include "pbt.hpp"
#include <routingkit/bit_vector.h>
#include <routingkit/id_mapper.h>
#include <routingkit/filter.h>
#include <sys/mman.h>
#include <memory>
using namespace RoutingKit;

static std::vector<char> draw_bits(pbt::Gen &g) {
	static const std::vector<uint64_t> edge = {0, 1, 64, 255, 256, 257, 511, 512, 513, 1024, 1536, 4096};
	uint64_t n; unsigned c = g.below(4);
	n = c == 0 ? g.pick(edge) : c == 1 ? g.below(40) : c == 2 ? g.below(1500) : g.below(g.thorough() ? 40000 : 8000);
	std::vector<char> m(n);
	unsigned pat = g.below(8); uint64_t seed = g.bits64(); uint64_t a = g.below(n + 1), b = g.below(n + 1);
	if (a > b) std::swap(a, b);
	unsigned blk = 1 + g.below(4);
	for (uint64_t i = 0; i < n; ++i) switch (pat) {
		case 0: m[i] = 0; break;
		case 1: m[i] = 1; break;
		case 2: m[i] = pbt::splitmix(seed) & 1; break;
		case 3: m[i] = pbt::splitmix(seed) % 100 == 0; break;
		case 4: m[i] = pbt::splitmix(seed) % 100 != 0; break;
		case 5: m[i] = i >= a && i < b; break;
		case 6: m[i] = i < a || i >= b; break;
		case 7: m[i] = (i / 512) % blk == 0 && (pbt::splitmix(seed) & 1); break; // empty blocks in between
	}
	unsigned flips = g.small(6); for (unsigned i = 0; i < flips && n; ++i) m[g.below(n)] ^= 1;
	static const char *nm[] = {"zero", "one", "half", "sparse", "dense", "interval", "hole", "blocks"};
	g.label(nm[pat]); g.note() << "n=" << n << " pattern=" << nm[pat] << " a=" << a << " b=" << b;
	return m;
}

template <class Mapper> static void check_local(const Mapper &m, const std::vector<char> &bits) {
	REQUIRE_EQ(m.global_id_count(), (uint64_t)bits.size(), "global_id_count");
	uint64_t r = 0;
	const uint64_t none = 77777777777777ull;
	for (uint64_t i = 0; i < bits.size(); ++i) {
		REQUIRE_EQ(m.is_global_id_mapped(i), (bool)bits[i], "is_global_id_mapped(" << i << ")");
		REQUIRE_EQ(m.to_local(i, none), bits[i] ? r : none, "to_local(" << i << ",default)");
		if (bits[i]) { REQUIRE_EQ(m.to_local(i), r, "to_local(" << i << ")"); ++r; }
	}
	for (uint64_t d : {0ull, 1ull, 511ull, 512ull, 1ull << 32, ~0ull - bits.size()}) REQUIRE_EQ(m.to_local(bits.size() + d, none), none, "to_local outside of the range, " << bits.size() + d);
	REQUIRE_EQ(m.local_id_count(), r, "local_id_count");
}

static void mapping(pbt::Gen &g) {
	auto bits = draw_bits(g);
	BitVector bv(bits.size());
	std::vector<uint64_t> glob;
	for (uint64_t i = 0; i < bits.size(); ++i) if (bits[i]) { bv.set(i); glob.push_back(i); }
	LocalIDMapper l; IDMapper m;
	REQUIRE_EQ(l.local_id_count(), (uint64_t)0, "local_id_count of an empty LocalIDMapper"); REQUIRE_EQ(m.local_id_count(), (uint64_t)0, "local_id_count of an empty IDMapper"); REQUIRE_EQ(m.global_id_count(), (uint64_t)0, "global_id_count of an empty IDMapper");
	unsigned how = g.below(3);
	if (how == 0) { l = LocalIDMapper(bv); m = IDMapper(bv); }
	else if (how == 1) { l = LocalIDMapper(bv.size(), bv.data()); m = IDMapper(bv.size(), bv.data()); }
	else { LocalIDMapper l2(bv); IDMapper m2(bv); LocalIDMapper l3(l2); IDMapper m3(m2); l = std::move(l3); m = m3; }
	check_local(l, bits); check_local(m, bits);
	for (uint64_t i = 0; i < glob.size(); ++i) { REQUIRE_EQ(m.to_global(i), glob[i], "to_global(" << i << ")"); REQUIRE_EQ(m.to_local(m.to_global(i)), i, "round trip"); }
	BitVector inv = ~bv;
	// filters
	std::vector<unsigned> ids(bits.size()), keep, rem; std::vector<std::string> names, keep_n, rem_n;
	for (unsigned i = 0; i < ids.size(); ++i) { ids[i] = i * 7 + 1; (bits[i] ? keep : rem).push_back(ids[i]); }
	REQUIRE_EQ(keep_element_of_vector_if(bv, ids), keep, "keep_element_of_vector_if");
	REQUIRE_EQ(remove_element_from_vector_if(bv, ids), rem, "remove_element_from_vector_if");
	REQUIRE_EQ(keep_element_of_vector_if(inv, ids), rem, "keep_element_of_vector_if, inverted");
	auto c = ids; inplace_keep_element_of_vector_if(bv, c); REQUIRE_EQ(c, keep, "inplace_keep_element_of_vector_if");
	REQUIRE_EQ((uint64_t)c.size(), m.local_id_count(), "kept elements");
	for (uint64_t i = 0; i < bits.size(); ++i) if (bits[i]) REQUIRE_EQ(c[m.to_local(i)], ids[i], "element " << i << " after filtering");
	c = ids; inplace_remove_element_from_vector_if(bv, c); REQUIRE_EQ(c, rem, "inplace_remove_element_from_vector_if");
	if (bits.size() < 600) { // move only and string elements
		for (unsigned i = 0; i < bits.size(); ++i) { names.push_back("element number " + std::to_string(i)); (bits[i] ? keep_n : rem_n).push_back(names.back()); }
		REQUIRE_EQ(keep_element_of_vector_if(bv, names), keep_n, "keep strings");
		REQUIRE_EQ(remove_element_from_vector_if(bv, names), rem_n, "remove strings");
		std::vector<std::unique_ptr<unsigned>> p; for (auto x : ids) p.push_back(std::unique_ptr<unsigned>(new unsigned(x)));
		auto q = remove_element_from_vector_if(bv, std::move(p));
		REQUIRE_EQ((uint64_t)q.size(), (uint64_t)rem.size(), "remaining pointers");
		for (unsigned i = 0; i < q.size(); ++i) { REQUIRE(q[i] != nullptr, "element lost"); REQUIRE_EQ(*q[i], rem[i], "remaining pointer"); }
	}
	g.nontrivial(glob.size() > 1 && glob.size() < bits.size());
}

// ID ranges beyond 32 bit (as with OSM node IDs)
static void huge(pbt::Gen &g) {
	uint64_t n = (1ull << 32) + 1 + g.below(1u << 21), bytes = (n + 511) / 512 * 64;
	uint64_t *p = (uint64_t *)mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) throw pbt::Discard{};
	std::vector<uint64_t> glob;
	unsigned k = 1 + g.small(40);
	for (unsigned i = 0; i < k; ++i) {
		uint64_t x = g.below(3) ? (1ull << 32) + g.below(n - (1ull << 32)) : g.below(n);
		unsigned run = g.chance(1, 4) ? 1 + g.below(2000) : 1;
		for (uint64_t y = x; y < x + run && y < n; ++y) { p[y / 64] |= 1ull << y % 64; glob.push_back(y); }
	}
	std::sort(glob.begin(), glob.end()); glob.erase(std::unique(glob.begin(), glob.end()), glob.end());
	g.note() << "n=" << n << " set bits " << glob.size() << " last " << glob.back();
	IDMapper m(n, p);
	REQUIRE_EQ(m.global_id_count(), n, "global_id_count"); REQUIRE_EQ(m.local_id_count(), (uint64_t)glob.size(), "local_id_count");
	for (uint64_t i = 0; i < glob.size(); ++i) {
		REQUIRE_EQ(m.to_local(glob[i]), i, "to_local(" << glob[i] << ")"); REQUIRE_EQ(m.to_global(i), glob[i], "to_global(" << i << ")");
		REQUIRE_EQ(m.to_local(glob[i], 5555555555ull), i, "to_local(" << glob[i] << ",default)");
		REQUIRE(m.is_global_id_mapped(glob[i]), "is_global_id_mapped");
		uint64_t q = glob[i] + 1; if (q < n && !std::binary_search(glob.begin(), glob.end(), q)) REQUIRE_EQ(m.to_local(q, 5555555555ull), 5555555555ull, "to_local of the unmapped " << q);
		q = glob[i] ^ (1ull << 32); if (q < n && !std::binary_search(glob.begin(), glob.end(), q)) REQUIRE_EQ(m.to_local(q, 5555555555ull), 5555555555ull, "to_local of the unmapped " << q);
	}
	munmap(p, bytes);
	g.nontrivial(glob.back() >= (1ull << 32));
}

// many mapped IDs (more than 2^16 blocks of the select index)
static void many(pbt::Gen &g) {
	uint64_t n = g.range(17500000, 40000000), period = g.chance(1, 3) ? 0 : g.range(20, 5000), gap = g.chance(1, 2) ? g.range(1, 3000) : 0; BitVector bv(n, true); std::vector<uint64_t> glob; glob.reserve(n);
	if (period) for (uint64_t i = g.below(period); i < n; i += period) bv.reset(i);
	for (uint64_t i = n / 3; i < n && i < n / 3 + gap; ++i) bv.reset(i);
	for (uint64_t i = 0; i < n; ++i) if (bv.is_set(i)) glob.push_back(i);
	g.note() << "n=" << n << " unset every " << period << " gap " << gap; IDMapper m(bv); LocalIDMapper l(bv); REQUIRE_EQ(m.local_id_count(), (uint64_t)glob.size(), "local_id_count");
	uint64_t s = g.bits64(); for (unsigned i = 0; i < 300000; ++i) { uint64_t k = i < 1000 ? glob.size() - 1 - i : i < 2000 ? (1u << 24) - 1500 + i : pbt::splitmix(s) % glob.size(); REQUIRE_EQ(m.to_global(k), glob[k], "to_global(" << k << ")"); REQUIRE_EQ(m.to_local(glob[k]), k, "to_local(" << glob[k] << ")"); REQUIRE_EQ(l.to_local(glob[k], 7), k, "to_local(" << glob[k] << ", invalid)"); }
	g.nontrivial();
}

// filters of long vectors
static void long_filters(pbt::Gen &g) {
	unsigned n = g.range(60000, g.chance(1, 4) ? 5000000 : 400000), dens = g.below(5); uint64_t s = g.bits64(); BitVector bv(n); std::vector<unsigned> v(n), keep, rem; g.note() << "n=" << n << " density " << dens;
	unsigned cut = pbt::splitmix(s) % n; for (unsigned i = 0; i < n; ++i) { uint64_t r = pbt::splitmix(s); bool b = dens == 0 ? r & 1 : dens == 1 ? r % 1000 == 0 : dens == 2 ? r % 1000 != 0 : dens == 3 ? i < cut : i >= cut; bv.set(i, b); v[i] = (unsigned)(r >> 32); (b ? keep : rem).push_back(v[i]); }
	auto same = [&](const std::vector<unsigned> &a, const std::vector<unsigned> &b, const char *what) { REQUIRE_EQ((uint64_t)a.size(), (uint64_t)b.size(), what << ": number of elements"); for (size_t i = 0; i < a.size(); ++i) if (a[i] != b[i]) REQUIRE_EQ(a[i], b[i], what << ": element " << i << " of " << a.size()); };
	same(keep_element_of_vector_if(bv, v), keep, "keep_element_of_vector_if"); same(remove_element_from_vector_if(bv, v), rem, "remove_element_from_vector_if"); auto c = v; inplace_keep_element_of_vector_if(bv, c); same(c, keep, "inplace_keep_element_of_vector_if"); inplace_remove_element_from_vector_if(bv, v); same(v, rem, "inplace_remove_element_from_vector_if");
	IDMapper m(bv); LocalIDMapper l(bv); REQUIRE_EQ(m.local_id_count(), (uint64_t)keep.size(), "local_id_count"); uint64_t k = 0; for (unsigned i = 0; i < n; ++i) if (bv.is_set(i)) { if (m.to_local(i) != k || l.to_local(i) != k || m.to_global(k) != i) REQUIRE(false, "mapping of " << i << " to " << k << ": " << m.to_local(i) << ", " << l.to_local(i) << ", " << m.to_global(k)); ++k; } else if (m.is_global_id_mapped(i) || l.to_local(i, 77) != 77) REQUIRE(false, "unmapped " << i << " is mapped");
	g.nontrivial(!keep.empty() && !rem.empty());
}

pbt::Check pbt::make_check() {
	return {"P13", "a case is non-trivial if at least two IDs and not all IDs are mapped (mapping), or an ID beyond 32 bit is mapped (huge), or more than 2^24 IDs are mapped (many)",
		{{"mapping", 20000, 400000, mapping}, {"huge", 12, 200, huge}, {"many", 6, 100, many, 120}, {"long_filters", 60, 2000, long_filters}}};
}
