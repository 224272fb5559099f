// P14: sorting, permutation, adjacency array and path conversion helpers.
#include "graphs.hpp"
#include <routingkit/sort.h>
#include <routingkit/permutation.h>
#include <routingkit/inverse_vector.h>
#include <routingkit/graph_util.h>
#include <routingkit/min_max.h>
#include <random>
using namespace gr;
using namespace RoutingKit;

// an element: the key decides the order, the tag tells equal elements apart
struct El {
	unsigned key = 0, tag = 0; std::string s;
	bool operator==(const El &o) const { return key == o.key && tag == o.tag && s == o.s; }
	bool operator<(const El &o) const { return key < o.key; }
};
namespace pbt { inline std::string show(const El &e) { return std::to_string(e.key) + "#" + std::to_string(e.tag); } }
using pbt::show;

template <class A> static std::string sh(const std::vector<A> &v) { std::string r = "["; for (size_t i = 0; i < v.size() && i < 30; ++i) r += pbt::show(v[i]) + " "; return r + "]"; }
template <class A> static void same(const std::vector<A> &a, const std::vector<A> &b, const char *what) { REQUIRE(a == b, what << ": got " << sh(a) << ", expected " << sh(b)); }

static bool ref_is_perm(const U &p) { U q = p; std::sort(q.begin(), q.end()); for (unsigned i = 0; i < q.size(); ++i) if (q[i] != i) return false; return true; }

// p is a sort permutation of v
static void check_perm(const U &p, const std::vector<El> &v, const char *what) {
	REQUIRE(p.size() == v.size() && ref_is_perm(p), what << " is no permutation: " << sh(p));
	for (unsigned i = 1; i < p.size(); ++i) REQUIRE(v[p[i - 1]].key <= v[p[i]].key, what << " does not sort: " << sh(p));
}
static void check_sorted(std::vector<El> r, std::vector<El> v, const char *what) { // any order among equal elements
	for (unsigned i = 1; i < r.size(); ++i) REQUIRE(r[i - 1].key <= r[i].key, what << " not sorted: " << sh(r));
	auto full = [](const El &a, const El &b) { return a.tag < b.tag; };
	std::sort(r.begin(), r.end(), full); std::sort(v.begin(), v.end(), full);
	same(r, v, what);
}

static void sorting(pbt::Gen &g, bool huge) {
	unsigned n = huge ? (g.chance(1, 12) ? 500000 + g.below(800000) : 65530 + g.below(6000)) : g.chance(1, 3) ? g.below(40) : g.below(g.thorough() ? 1200 : 250);
	// ratios of keys to elements on both sides of any bucket/comparison switch
	unsigned key_count; switch (g.below(5)) { case 0: key_count = 1 + g.below(5); break; case 1: key_count = n + 1; break; case 2: key_count = 16 * n + g.below(33) + (n == 0); break; case 3: key_count = 1 + g.below(100000); break; default: key_count = 17 * n + 200 + g.below(1000); }
	bool few = g.chance(1, 3); unsigned distinct = 1 + g.below(4);
	std::vector<El> v(n); uint64_t seed = g.bits64();
	bool drawn = n < 30;
	for (unsigned i = 0; i < n; ++i) {
		uint64_t r = drawn ? g.below(1u << 20) : pbt::splitmix(seed);
		v[i].key = few ? (uint64_t)(r % distinct) * (key_count - 1) / distinct : r % key_count; v[i].tag = i; v[i].s = "string of element " + std::to_string(i);
	}
	if (n && g.chance(1, 3)) { v[n - 1].key = key_count - 1; v[0].key = 0; }
	if (n && g.chance(1, 6)) { std::stable_sort(v.begin(), v.end()); if (g.chance(1, 2)) std::swap(v[g.below(n)], v[n - 1]); for (unsigned i = 0; i < n; ++i) v[i].tag = i; }
	g.note() << "n=" << n << " key_count=" << key_count << " v=" << sh(v);
	const auto orig = v;
	auto key = [](const El &e) { return e.key; };
	auto cmp = [](const El &a, const El &b) { return a.key < b.key; };
	std::vector<El> sorted = v; std::stable_sort(sorted.begin(), sorted.end(), cmp);
	U sp(n); for (unsigned i = 0; i < n; ++i) sp[i] = sorted[i].tag;
	U inv(n); for (unsigned i = 0; i < n; ++i) inv[sp[i]] = i;
	bool is = true; for (unsigned i = 1; i < n; ++i) is &= v[i - 1].key <= v[i].key;

	same(compute_stable_sort_permutation_using_key(v, key_count, key), sp, "compute_stable_sort_permutation_using_key");
	same(compute_stable_sort_permutation_using_less(v), sp, "compute_stable_sort_permutation_using_less");
	same(compute_stable_sort_permutation_using_comparator(v, cmp), sp, "compute_stable_sort_permutation_using_comparator");
	same(compute_inverse_stable_sort_permutation_using_key(v, key_count, key), inv, "compute_inverse_stable_sort_permutation_using_key");
	same(compute_inverse_stable_sort_permutation_using_less(v), inv, "compute_inverse_stable_sort_permutation_using_less");
	same(compute_inverse_stable_sort_permutation_using_comparator(v, cmp), inv, "compute_inverse_stable_sort_permutation_using_comparator");
	check_perm(compute_sort_permutation_using_key(v, key_count, key), v, "compute_sort_permutation_using_key");
	check_perm(compute_sort_permutation_using_less(v), v, "compute_sort_permutation_using_less");
	check_perm(compute_sort_permutation_using_comparator(v, cmp), v, "compute_sort_permutation_using_comparator");
	auto un = [&](const U &p, const char *w) { REQUIRE(p.size() == n && ref_is_perm(p), w << " is no permutation: " << sh(p)); U r(n); for (unsigned i = 0; i < n; ++i) r[p[i]] = i; check_perm(r, v, w); };
	un(compute_inverse_sort_permutation_using_key(v, key_count, key), "compute_inverse_sort_permutation_using_key");
	un(compute_inverse_sort_permutation_using_less(v), "compute_inverse_sort_permutation_using_less");
	un(compute_inverse_sort_permutation_using_comparator(v, cmp), "compute_inverse_sort_permutation_using_comparator");
	same(stable_sort_using_key(v, key_count, key), sorted, "stable_sort_using_key");
	same(stable_sort_using_less(v), sorted, "stable_sort_using_less");
	same(stable_sort_using_comparator(v, cmp), sorted, "stable_sort_using_comparator");
	check_sorted(sort_using_key(v, key_count, key), v, "sort_using_key");
	check_sorted(sort_using_less(v), v, "sort_using_less");
	check_sorted(sort_using_comparator(v, cmp), v, "sort_using_comparator");
	same(v, orig, "the sorted vector itself changed");
	{ auto c = v; same(stable_sort_using_key(std::move(c), key_count, key), sorted, "stable_sort_using_key(rvalue)"); }
	{ auto c = v; same(stable_sort_using_less(std::move(c)), sorted, "stable_sort_using_less(rvalue)"); }
	{ auto c = v; same(stable_sort_using_comparator(std::move(c), cmp), sorted, "stable_sort_using_comparator(rvalue)"); }
	{ auto c = v; check_sorted(sort_using_key(std::move(c), key_count, key), v, "sort_using_key(rvalue)"); }
	{ auto c = v; check_sorted(sort_using_less(std::move(c)), v, "sort_using_less(rvalue)"); }
	{ auto c = v; check_sorted(sort_using_comparator(std::move(c), cmp), v, "sort_using_comparator(rvalue)"); }
	REQUIRE_EQ(is_sorted_using_key(v, key_count, key), is, "is_sorted_using_key");
	REQUIRE_EQ(is_sorted_using_less(v), is, "is_sorted_using_less");
	REQUIRE_EQ(is_sorted_using_comparator(v, cmp), is, "is_sorted_using_comparator");
	REQUIRE(is_sorted_using_less(sorted), "is_sorted_using_less(sorted)");
	// min and max
	if (n) {
		const unsigned five = 5; U k; for (auto &e : v) k.push_back(e.key);
		unsigned lo = *std::min_element(k.begin(), k.end()), hi = *std::max_element(k.begin(), k.end());
		REQUIRE_EQ(min_element_of(k), lo, "min_element_of"); REQUIRE_EQ(max_element_of(k), hi, "max_element_of");
		REQUIRE_EQ(min_element_of(k, five), lo, "min_element_of with default"); REQUIRE_EQ(max_element_of(k, five), hi, "max_element_of with default");
		REQUIRE_EQ(first_min_element_position_of(k), (unsigned)(std::find(k.begin(), k.end(), lo) - k.begin()), "first_min_element_position_of");
		REQUIRE_EQ(first_max_element_position_of(k), (unsigned)(std::find(k.begin(), k.end(), hi) - k.begin()), "first_max_element_position_of");
		unsigned a = k[0], b = k[n - 1]; min_to(a, b); REQUIRE_EQ(a, std::min(k[0], k[n - 1]), "min_to"); a = k[0]; max_to(a, b); REQUIRE_EQ(a, std::max(k[0], k[n - 1]), "max_to");
	} else { U k; const unsigned five = 5, seven = 7; REQUIRE_EQ(min_element_of(k, five), 5u, "min_element_of empty"); REQUIRE_EQ(max_element_of(k, seven), 7u, "max_element_of empty"); }
	bool ties = false; for (unsigned i = 1; i < n; ++i) ties |= sorted[i].key == sorted[i - 1].key;
	g.nontrivial(n > 2 && !is); if (ties) g.label("ties"); g.label(n >= key_count / 16 ? "few keys" : "many keys");
}

static U seeded_permutation(pbt::Gen &g, unsigned n) { U p(n); std::iota(p.begin(), p.end(), 0u); uint64_t s = g.bits64(); for (unsigned i = n; i > 1; --i) std::swap(p[i - 1], p[pbt::splitmix(s) % i]); return p; }
static void permutations(pbt::Gen &g, bool huge) {
	unsigned n = huge ? 65530 + g.below(4000) : g.below(g.chance(1, 4) ? 200 : 12);
	U p = huge ? seeded_permutation(g, n) : draw_permutation(g, n), q = huge ? seeded_permutation(g, n) : draw_permutation(g, n);
	g.note() << "p=" << sh(p) << " q=" << sh(q);
	std::vector<std::string> v; for (unsigned i = 0; i < n; ++i) v.push_back("a rather long string " + std::to_string(i));
	REQUIRE(is_permutation(p), "is_permutation");
	U ip = invert_permutation(p); U id = identity_permutation(n);
	REQUIRE_EQ((unsigned)ip.size(), n, "size of the inverse"); for (unsigned i = 0; i < n; ++i) { REQUIRE_EQ(ip[p[i]], i, "inverse"); REQUIRE_EQ(id[i], i, "identity"); }
	std::vector<std::string> e(n), ei(n); for (unsigned i = 0; i < n; ++i) { e[i] = v[p[i]]; ei[p[i]] = v[i]; }
	same(apply_permutation(p, v), e, "apply_permutation"); same(apply_inverse_permutation(p, v), ei, "apply_inverse_permutation");
	{ auto c = v; same(apply_permutation(p, std::move(c)), e, "apply_permutation(rvalue)"); }
	{ auto c = v; same(apply_inverse_permutation(p, std::move(c)), ei, "apply_inverse_permutation(rvalue)"); }
	same(apply_permutation(ip, e), v, "undo"); same(apply_inverse_permutation(p, e), v, "undo by inverse");
	same(apply_permutation(chain_permutation_first_left_then_right(p, q), v), apply_permutation(q, e), "chain_permutation_first_left_then_right");
	same(apply_permutation(chain_permutation_first_right_then_left(q, p), v), apply_permutation(q, e), "chain_permutation_first_right_then_left");
	// IDs
	unsigned k = g.below(20); U ids(k), ids2(k), ex(k), ex2(k);
	for (unsigned i = 0; i < k && n; ++i) { ids[i] = g.below(n); ex[i] = p[ids[i]]; bool inv = g.chance(1, 3); ids2[i] = inv ? INVALID : ids[i]; ex2[i] = inv ? INVALID : ex[i]; }
	if (n) {
		same(apply_permutation_to_elements_of(p, ids), ex, "apply_permutation_to_elements_of");
		{ auto c = ids; inplace_apply_permutation_to_elements_of(p, c); same(c, ex, "inplace_apply_permutation_to_elements_of"); }
		{ auto c = ids2; inplace_apply_permutation_to_possibly_invalid_elements_of(p, c); same(c, ex2, "inplace_apply_permutation_to_possibly_invalid_elements_of"); }
		same(apply_permutation_to_possibly_invalid_elements_of(p, ids2), ex2, "apply_permutation_to_possibly_invalid_elements_of");
	} else same(apply_permutation_to_possibly_invalid_elements_of(p, U(3, INVALID)), U(3, INVALID), "apply_permutation_to_possibly_invalid_elements_of");
	// nearly permutations
	if (n) {
		U r = p; unsigned i = g.below(n); unsigned old = r[i];
		static const std::vector<unsigned> special = {INVALID, 0x80000000u};
		switch (g.below(4)) { case 0: r[i] = n; break; case 1: r[i] = g.pick(special); break; case 2: r[i] = g.below(n); break; default: r[i] = n + g.below(100); }
		REQUIRE_EQ(is_permutation(r), r[i] == old, "is_permutation after element " << i << " became " << r[i]);
		r = p; r.pop_back(); REQUIRE_EQ(is_permutation(r), ref_is_perm(r), "is_permutation after pop_back");
	}
	std::minstd_rand gen(g.below(1000) + 1); U rp = random_permutation(n, gen); REQUIRE(rp.size() == n && ref_is_perm(rp), "random_permutation");
	g.nontrivial(n > 2);
}

static void adjacency(pbt::Gen &g, bool huge) {
	WeightMode mode = w_small;
	Graph G = huge ? draw_huge_graph(g) : draw_graph(g, g.thorough() ? 60 : 25, mode, true, 20000);
	unsigned n = G.n, m = G.m();
	if (!huge) g.note() << G.str();
	if (n == 0) { same(invert_vector(U(), 0), U(1, 0u), "invert_vector"); return; }
	U e = U(m); std::iota(e.begin(), e.end(), 0u);
	std::stable_sort(e.begin(), e.end(), [&](unsigned a, unsigned b) { return std::make_pair(G.tail[a], G.head[a]) < std::make_pair(G.tail[b], G.head[b]); });
	auto sorts = [&](const U &p, const char *w) {
		REQUIRE(p.size() == m && ref_is_perm(p), w << " is no permutation");
		for (unsigned i = 0; i < m; ++i) REQUIRE(G.tail[p[i]] == G.tail[e[i]] && G.head[p[i]] == G.head[e[i]], w << ": arc " << i << " is " << G.tail[p[i]] << "->" << G.head[p[i]] << ", expected " << G.tail[e[i]] << "->" << G.head[e[i]]);
	};
	auto inverted = [&](const U &p, const char *w) { REQUIRE(p.size() == m && ref_is_perm(p), w << " is no permutation"); U r(m); for (unsigned i = 0; i < m; ++i) r[p[i]] = i; return r; };
	const U t0 = G.tail, h0 = G.head; U st(m); for (unsigned i = 0; i < m; ++i) st[i] = t0[e[i]];
	sorts(compute_sort_permutation_first_by_tail_then_by_head(n, G.tail, G.head), "compute_sort_permutation_first_by_tail_then_by_head");
	sorts(inverted(compute_inverse_sort_permutation_first_by_tail_then_by_head(n, G.tail, G.head), "inverse"), "compute_inverse_sort_permutation_first_by_tail_then_by_head");
	same(G.tail, t0, "tail changed"); same(G.head, h0, "head changed");
	{ U t = t0; sorts(compute_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n, t, G.head), "..._and_apply_sort_to_tail"); same(t, st, "sorted tail"); }
	{ U t = t0; sorts(inverted(compute_inverse_sort_permutation_first_by_tail_then_by_head_and_apply_sort_to_tail(n, t, G.head), "inverse"), "inverse ..._and_apply_sort_to_tail"); same(t, st, "sorted tail (inverse)"); }
	// different ID ranges on both sides
	{
		uint64_t bseed = huge ? g.bits64() : 0;
		unsigned bc = 1 + g.below(3) + (g.chance(1, 2) ? 50 * m : 0), ac = n + (g.chance(1, 2) ? 50 * m : 0); U b(m); for (unsigned i = 0; i < m; ++i) b[i] = huge ? pbt::splitmix(bseed) % bc : g.below(bc);
		U x(m); std::iota(x.begin(), x.end(), 0u); std::stable_sort(x.begin(), x.end(), [&](unsigned i, unsigned j) { return std::make_pair(t0[i], b[i]) < std::make_pair(t0[j], b[j]); });
		auto ok = [&](const U &p, const char *w) { REQUIRE(p.size() == m && ref_is_perm(p), w << " is no permutation"); for (unsigned i = 0; i < m; ++i) REQUIRE(t0[p[i]] == t0[x[i]] && b[p[i]] == b[x[i]], w << " does not sort"); };
		ok(compute_sort_permutation_first_by_left_then_by_right(ac, t0, bc, b), "compute_sort_permutation_first_by_left_then_by_right");
		ok(inverted(compute_inverse_sort_permutation_first_by_left_then_by_right(ac, t0, bc, b), "inverse"), "compute_inverse_sort_permutation_first_by_left_then_by_right");
		U t = t0; ok(inverted(compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left(ac, t, bc, b), "inverse"), "compute_inverse_sort_permutation_first_by_left_then_by_right_and_apply_sort_to_left"); same(t, st, "sorted left");
	}
	// inverse vectors
	U fo = invert_vector(st, n), ref(n + 1, 0u); for (auto x : st) ++ref[x + 1]; for (unsigned i = 0; i < n; ++i) ref[i + 1] += ref[i];
	same(fo, ref, "invert_vector"); same(invert_inverse_vector(fo), st, "invert_inverse_vector");
	// arc lookup, heads sorted and unsorted
	bool sorted_heads = g.chance(1, 2); U head(m), order = e;
	if (!sorted_heads) { std::iota(order.begin(), order.end(), 0u); std::stable_sort(order.begin(), order.end(), [&](unsigned a, unsigned b) { return t0[a] < t0[b]; }); }
	for (unsigned i = 0; i < m; ++i) head[i] = h0[order[i]];
	for (unsigned k = 0; k < 40; ++k) {
		unsigned x, y; if (m && k % 2) { unsigned a = g.below(m); x = st[a]; y = head[a]; } else { x = g.below(n); y = g.below(n); }
		bool ex = false; for (unsigned a = fo[x]; a < fo[x + 1]; ++a) ex |= head[a] == y;
		auto chk = [&](unsigned a, const char *w) { if (!ex) REQUIRE_EQ(a, INVALID, w << " of the missing arc " << x << "->" << y); else REQUIRE(a < m && st[a] == x && head[a] == y, w << "(" << x << "," << y << ") is " << a); };
		chk(find_arc_or_return_invalid(fo, head, x, y), "find_arc_or_return_invalid"); if (ex) chk(find_arc(fo, head, x, y), "find_arc");
		if (sorted_heads) { chk(find_arc_or_return_invalid_given_sorted_head(fo, head, x, y), "find_arc_or_return_invalid_given_sorted_head"); if (ex) chk(find_arc_given_sorted_head(fo, head, x, y), "find_arc_given_sorted_head"); }
	}
	// walks
	unsigned s = g.below(n), x = s; U arcs, nodes(1, s); unsigned len = g.below(12);
	for (unsigned i = 0; i < len && fo[x] < fo[x + 1]; ++i) { unsigned a = fo[x] + g.below(fo[x + 1] - fo[x]); arcs.push_back(a); x = head[a]; nodes.push_back(x); }
	if (!arcs.empty()) same(convert_arc_path_to_node_path(s, head, arcs), nodes, "convert_arc_path_to_node_path");
	U back = convert_node_path_to_arc_path(fo, head, nodes);
	REQUIRE_EQ((unsigned)back.size(), (unsigned)arcs.size(), "convert_node_path_to_arc_path: number of arcs");
	for (unsigned i = 0; i < back.size(); ++i) REQUIRE(back[i] < m && st[back[i]] == nodes[i] && head[back[i]] == nodes[i + 1], "convert_node_path_to_arc_path: arc " << i << " is " << back[i]);
	REQUIRE(convert_node_path_to_arc_path(fo, head, U()).empty(), "empty path");
	g.nontrivial(m > 3 && arcs.size() > 1);
	if (arcs.size() > 2) g.label("long walk");
}

pbt::Check pbt::make_check() {
	return {"P14", "sorting: more than two elements, unsorted; permutations: more than two elements; adjacency: more than three arcs and a walk of at least two arcs",
		{{"sorting", 30000, 1000000, [](pbt::Gen &g) { sorting(g, false); }}, {"permutations", 30000, 1000000, [](pbt::Gen &g) { permutations(g, false); }}, {"adjacency", 30000, 1000000, [](pbt::Gen &g) { adjacency(g, false); }},
		{"huge", 60, 1500, [](pbt::Gen &g) { switch (g.below(3)) { case 0: sorting(g, true); break; case 1: permutations(g, true); break; default: adjacency(g, true); } }}}};
}
