// P15: priority queues, ID set queue and timestamp flags against simple models.
#include "pbt.hpp"
#include <algorithm>
#include <routingkit/id_queue.h>
#include <routingkit/id_set_queue.h>
#include <routingkit/timestamp_flag.h>
#include <map>
#include <set>
using namespace RoutingKit;
static const unsigned INVALID = 4294967295u;

static unsigned draw_key(pbt::Gen &g, unsigned mode) {
	switch (mode) { case 0: return g.below(4); case 1: return g.below(100); case 2: return g.chance(1, 3) ? INVALID - g.below(3) : g.below(3); case 3: return g.chance(1, 3) ? 2147483647u - g.below(2) : g.chance(1, 2) ? 2147483648u + g.below(2) : g.below(3); default: return g.below(1ull << 32); }
}
struct Model { unsigned n = 0; std::map<unsigned, unsigned> key; };

static void check_queue(MinIDQueue &q, const Model &m) {
	REQUIRE_EQ(q.size(), (unsigned)m.key.size(), "size"); REQUIRE_EQ(q.empty(), m.key.empty(), "empty"); REQUIRE_EQ(q.id_count(), m.n, "id_count");
	unsigned lo = INVALID;
	for (unsigned i = 0; i < m.n; ++i) {
		auto it = m.key.find(i); REQUIRE_EQ(q.contains_id(i), it != m.key.end(), "contains_id(" << i << ")");
		if (it != m.key.end()) { REQUIRE_EQ(q.get_key(i), it->second, "get_key(" << i << ")"); lo = std::min(lo, it->second); }
	}
	if (!m.key.empty()) { IDKeyPair p = q.peek(); auto it = m.key.find(p.id); REQUIRE(it != m.key.end() && it->second == p.key, "peek returns the absent pair " << p.id << "," << p.key); REQUIRE_EQ(p.key, lo, "peek is not the smallest key"); }
}

static void min_id_queue(pbt::Gen &g) {
	unsigned n = g.chance(1, 8) ? g.below(300) : g.below(24), mode = g.below(5);
	MinIDQueue q(n), other; Model m, om; m.n = n;
	unsigned steps = 1 + g.small(g.thorough() ? 400 : 150), pops = 0, changes = 0, biggest = 0;
	unsigned bias = g.below(3);
	g.note() << "n=" << n << " keymode=" << mode;
	for (unsigned s = 0; s < steps; ++s) {
		unsigned op = g.below(12);
		if (bias == 0 && op == 5) op = 0;
		unsigned id = m.n ? g.below(m.n) : 0; bool in = m.key.count(id);
		switch (op) {
		case 0: case 1: case 2: case 3: if (m.n && !in) { unsigned k = draw_key(g, mode); g.note() << " push " << id << ":" << k; q.push({id, k}); m.key[id] = k; } break;
		case 4: case 5: if (!m.key.empty()) { unsigned lo = INVALID; for (auto &x : m.key) lo = std::min(lo, x.second); IDKeyPair p = q.pop(); g.note() << " pop"; ++pops;
			auto it = m.key.find(p.id); REQUIRE(it != m.key.end() && it->second == p.key, "pop returned the absent pair " << p.id << "," << p.key); REQUIRE_EQ(p.key, lo, "pop is not the smallest key"); m.key.erase(it); } break;
		case 6: case 7: if (in) { unsigned k = draw_key(g, mode); g.note() << " dec " << id << ":" << k; bool e = k < m.key[id]; REQUIRE_EQ(q.decrease_key({id, k}), e, "decrease_key"); if (e) m.key[id] = k; ++changes; } break;
		case 8: case 9: if (in) { unsigned k = draw_key(g, mode); g.note() << " inc " << id << ":" << k; bool e = k > m.key[id]; REQUIRE_EQ(q.increase_key({id, k}), e, "increase_key"); if (e) m.key[id] = k; ++changes; } break;
		case 10: if (g.chance(1, 5)) { g.note() << " clear"; q.clear(); m.key.clear(); } break;
		case 11: switch (g.below(4)) {
			case 0: { MinIDQueue c(q); g.note() << " copy"; check_queue(c, m); q = c; break; }
			case 1: { unsigned k = g.below(20); g.note() << " other=MinIDQueue(" << k << ")"; other = MinIDQueue(k); om = Model(); om.n = k; break; }
			case 2: g.note() << " swap"; { using std::swap; swap(q, other); std::swap(m, om); } break;
			default: break; } break;
		}
		biggest = std::max<unsigned>(biggest, m.key.size());
		if (m.n <= 30 || s % 16 == 0) { check_queue(q, m); if (om.n <= 30) check_queue(other, om); }
	}
	check_queue(q, m);
	unsigned last = 0; // drain
	while (!m.key.empty()) { IDKeyPair p = q.pop(); auto it = m.key.find(p.id); REQUIRE(it != m.key.end() && it->second == p.key, "pop returned the absent pair " << p.id << "," << p.key); REQUIRE(p.key >= last, "drained in wrong order"); last = p.key; m.key.erase(it); check_queue(q, m); }
	g.nontrivial(biggest >= 5 && pops && changes);
	if (biggest > 20) g.label("three heap levels");
}

// more elements than fit into 16 bits
static void huge_queue(pbt::Gen &g) {
	unsigned n = 65537 + (g.chance(1, 8) ? g.below(300000) : g.below(8000)), mode = g.below(3); uint64_t s = g.bits64(); MinIDQueue q(n); std::vector<unsigned> key(n); std::vector<char> in(n, 0); std::set<std::pair<unsigned, unsigned>> m;
	auto draw = [&] { return (unsigned)(mode == 0 ? pbt::splitmix(s) % 100 : mode == 1 ? pbt::splitmix(s) : pbt::splitmix(s) % 100000); }; g.note() << "n=" << n << " mode=" << mode << " seed=" << s;
	auto push = [&](unsigned i) { key[i] = draw(); in[i] = 1; q.push({i, key[i]}); m.insert({key[i], i}); };
	auto pop = [&] { IDKeyPair p = q.peek(), r = q.pop(); REQUIRE(p.id == r.id && p.key == r.key, "peek and pop differ"); REQUIRE_EQ(r.key, m.begin()->first, "pop is not the smallest key"); REQUIRE_EQ((size_t)m.erase({r.key, r.id}), (size_t)1, "pop returned the absent pair " << r.id << "," << r.key); in[r.id] = 0; };
	bool backwards = g.chance(1, 2); for (unsigned i = 0; i < n; ++i) push(backwards ? n - 1 - i : i);
	REQUIRE_EQ(q.size(), n, "size");
	if (g.chance(1, 3)) { q.clear(); m.clear(); in.assign(n, 0); REQUIRE(q.empty() && q.size() == 0, "not empty after clear"); for (unsigned i = 0; i < n; ++i) if (q.contains_id(i)) REQUIRE(false, "contains " << i << " after clear"); for (unsigned i = 0; i < n; ++i) if (pbt::splitmix(s) % 3) push(i); g.label("cleared"); }
	for (unsigned k = 0; k < 20000; ++k) {
		unsigned i = pbt::splitmix(s) % n; REQUIRE_EQ(q.contains_id(i), (bool)in[i], "contains_id(" << i << ")"); if (!in[i]) { push(i); continue; }
		REQUIRE_EQ(q.get_key(i), key[i], "get_key(" << i << ")"); unsigned nk = draw(), op = pbt::splitmix(s) % 3;
		if (op == 0) pop(); else { bool e = op == 1 ? nk < key[i] : nk > key[i]; REQUIRE_EQ(op == 1 ? q.decrease_key({i, nk}) : q.increase_key({i, nk}), e, "key change of " << i); if (e) { m.erase({key[i], i}); key[i] = nk; m.insert({nk, i}); } }
	}
	REQUIRE_EQ((size_t)q.size(), m.size(), "size"); while (!m.empty()) pop(); REQUIRE(q.empty(), "not empty");
	g.nontrivial();
}

static void check_set(const IDSetMinQueue &q, const std::set<unsigned> &m, unsigned n) {
	REQUIRE_EQ(q.id_count(), n, "id_count"); REQUIRE_EQ(q.empty(), m.empty(), "empty"); REQUIRE_EQ(q.peek(), m.empty() ? INVALID : *m.begin(), "peek");
	for (unsigned i = 0; i < n; ++i) REQUIRE_EQ(q.contains(i), m.count(i) != 0, "contains(" << i << ")");
}
static void id_set_queue(pbt::Gen &g) {
	unsigned n = g.chance(1, 4) ? g.below(200) : g.below(20); std::set<unsigned> m;
	IDSetMinQueue q(n); if (g.chance(1, 4)) { IDSetMinQueue e; REQUIRE(e.empty() && e.peek() == INVALID && e.id_count() == 0, "default constructed queue is not empty"); e.clear(); e = q; q = e; }
	unsigned steps = 1 + g.small(g.thorough() ? 300 : 100), pops = 0, most = 0;
	g.note() << "n=" << n; check_set(q, m, n);
	for (unsigned s = 0; s < steps; ++s) {
		switch (g.below(9)) {
		case 0: case 1: case 2: case 3: if (n) { unsigned id = g.below(n); g.note() << " push " << id; q.push(id); m.insert(id); } break;
		case 4: if (n && m.size()) { unsigned id = *m.rbegin(); if (id + 1 < n) ++id; g.note() << " push " << id; q.push(id); m.insert(id); } break;
		case 5: case 6: case 7: { g.note() << " pop"; unsigned e = m.empty() ? INVALID : *m.begin(); REQUIRE_EQ(q.pop(), e, "pop"); if (!m.empty()) { m.erase(m.begin()); ++pops; } break; }
		case 8: if (g.chance(1, 4)) { g.note() << " clear"; q.clear(); m.clear(); } else { IDSetMinQueue c(q); check_set(c, m, n); } break;
		}
		most = std::max<unsigned>(most, m.size());
		check_set(q, m, n);
	}
	while (!m.empty()) { REQUIRE_EQ(q.pop(), *m.begin(), "drain"); m.erase(m.begin()); check_set(q, m, n); }
	g.nontrivial(most > 2 && pops);
}

// many IDs
static void huge_set_queue(pbt::Gen &g) {
	unsigned n = g.range(1000, g.chance(1, 4) ? 5000000 : 200000); uint64_t s = g.bits64(); IDSetMinQueue q(n); std::set<unsigned> m; unsigned rounds = g.range(1, 3), local = g.below(3); g.note() << "n=" << n << " rounds " << rounds << " locality " << local;
	for (unsigned r = 0; r < rounds; ++r) {
		unsigned base = pbt::splitmix(s) % n;
		for (unsigned k = 0; k < 30000; ++k) {
			unsigned op = pbt::splitmix(s) % 5; if (k % 5000 < 2500 ? op < 4 : op < 2) { unsigned id = local == 0 ? pbt::splitmix(s) % n : local == 1 ? (unsigned)std::min<uint64_t>(n - 1, base + pbt::splitmix(s) % 5000) : m.empty() ? base : (unsigned)((*m.begin() + pbt::splitmix(s) % 3000) % n); q.push(id); m.insert(id); REQUIRE(q.contains(id), "pushed " << id << " but it is not contained"); }
			else { unsigned e = m.empty() ? INVALID : *m.begin(); REQUIRE_EQ(q.peek(), e, "peek"); REQUIRE_EQ(q.pop(), e, "pop"); if (!m.empty()) { m.erase(m.begin()); REQUIRE(!q.contains(e), "popped " << e << " but it is contained"); } }
		}
		if (g.chance(1, 2)) { q.clear(); m.clear(); REQUIRE(q.empty() && q.peek() == INVALID, "not empty after clear"); for (unsigned i = 0; i < n; ++i) if (q.contains(i)) REQUIRE(false, "contains " << i << " after clear"); }
	}
	for (unsigned i = 0; i < 3000; ++i) { unsigned id = pbt::splitmix(s) % n; REQUIRE_EQ(q.contains(id), m.count(id) != 0, "contains(" << id << ")"); }
	while (!m.empty()) { REQUIRE_EQ(q.pop(), *m.begin(), "drain"); m.erase(m.begin()); } REQUIRE(q.empty(), "not empty"); g.nontrivial();
}
// many flags
static void huge_flags(pbt::Gen &g) {
	unsigned n = g.range(1000, 2000000); uint64_t s = g.bits64(); TimestampFlags f(n); std::vector<char> m(n, 0); unsigned rounds = g.range(1, 4); g.note() << "n=" << n << " rounds " << rounds;
	for (unsigned r = 0; r < rounds; ++r) { for (unsigned k = 0; k < 50000; ++k) { unsigned id = pbt::splitmix(s) % n; bool v = pbt::splitmix(s) % 3; if (v) f.set(id); else f.reset_one(id); m[id] = v; } for (unsigned i = 0; i < n; ++i) if (f.is_set(i) != (bool)m[i]) REQUIRE_EQ(f.is_set(i), (bool)m[i], "flag " << i);
		unsigned k = g.chance(1, 3) ? g.pick(std::vector<unsigned>{65534, 65535, 65536, 131072}) : g.below(3); for (unsigned i = 0; i < k; ++i) f.reset_all(); if (k) m.assign(n, 0); for (unsigned i = 0; i < n; ++i) if (f.is_set(i) != (bool)m[i]) REQUIRE_EQ(f.is_set(i), (bool)m[i], "flag " << i << " after " << k << " resets"); }
	g.nontrivial();
}

// the flags must survive any number of reset_all calls
static void timestamp(pbt::Gen &g) {
	unsigned n = 1 + g.below(8); TimestampFlags f(n); std::vector<char> m(n);
	if (g.chance(1, 3)) { TimestampFlags h; h = f; f = h; }
	unsigned steps = 1 + g.below(12); uint64_t resets = 0; g.note() << "n=" << n;
	for (unsigned s = 0; s < steps; ++s) {
		unsigned id = g.below(n);
		switch (g.below(5)) {
		case 0: f.set(id); m[id] = 1; g.note() << " set " << id; break;
		case 1: f.reset_one(id); m[id] = 0; g.note() << " reset_one " << id; break;
		case 2: f.reset_all(); m.assign(n, 0); ++resets; g.note() << " reset_all"; break;
		default: { static const std::vector<unsigned> edge = {255, 256, 65534, 65535, 65536, 32767, 131071}; unsigned k = g.chance(1, 2) ? g.pick(edge) : g.below(70000); g.note() << " reset_all x" << k; 
			bool watch = g.chance(1, 2); for (unsigned i = 0; i < k; ++i) { f.reset_all(); if (watch && f.is_set(id)) REQUIRE(false, "flag " << id << " is set after " << i << " further resets"); } if (k) m.assign(n, 0); resets += k; }
		}
		for (unsigned i = 0; i < n; ++i) REQUIRE_EQ(f.is_set(i), (bool)m[i], "is_set(" << i << ") after " << resets << " resets");
	}
	g.nontrivial(resets > 65535);
}

pbt::Check pbt::make_check() {
	return {"P15", "priority queue: at least five elements at once, a pop and a key change; set queue: more than two elements and a pop; flags: more than 65535 resets",
		{{"min_id_queue", 40000, 1500000, min_id_queue}, {"huge_queue", 60, 1500, huge_queue}, {"id_set_queue", 40000, 1000000, id_set_queue, 15}, {"timestamp", 8000, 200000, timestamp}, {"huge_set_queue", 60, 1500, huge_set_queue}, {"huge_flags", 30, 1000, huge_flags}}};
}
