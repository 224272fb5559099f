// P26: the tools that work on graph files.
#include <routingkit/contraction_hierarchy.h>
#include "graphs.hpp"
#include "tools.hpp"
#include <cmath>
#include <map>
#include <set>
using namespace gr;
using namespace tools;
typedef std::vector<float> F;
static std::string S(const std::string &n) { return pbt::scratch_file(n); }

// arcs sorted by tail (and by head if wanted), as the tools expect them
static void sort_graph(Graph &G) {
	U p(G.m()); std::iota(p.begin(), p.end(), 0u); std::stable_sort(p.begin(), p.end(), [&](unsigned a, unsigned b) { return G.tail[a] < G.tail[b]; }); Graph H; H.n = G.n; for (auto a : p) H.add(G.tail[a], G.head[a], G.weight[a]); G = H;
}
static U first_out_of(const Graph &G) { U f(G.n + 1, 0); for (auto t : G.tail) ++f[t + 1]; for (unsigned i = 0; i < G.n; ++i) f[i + 1] += f[i]; return f; }
static Graph read_graph(const std::string &fo, const std::string &he, const std::string &we) {
	U f = load<unsigned>(fo), h = load<unsigned>(he), w = load<unsigned>(we); REQUIRE(!f.empty() && f[0] == 0 && f.back() == h.size() && w.size() == h.size(), "the written graph is inconsistent: " << f.size() << " first_out, " << h.size() << " head, " << w.size() << " weight");
	Graph G; G.n = f.size() - 1; for (unsigned v = 0; v < G.n; ++v) { REQUIRE(f[v] <= f[v + 1], "first_out is not monotone"); for (unsigned a = f[v]; a < f[v + 1]; ++a) { REQUIRE(h[a] < G.n, "head out of range"); G.add(v, h[a], w[a]); } } return G;
}
static void write_graph(const Graph &G, const std::string &fo, const std::string &he, const std::string &we) { save(fo, first_out_of(G)); save(he, G.head); save(we, G.weight); }
typedef std::array<unsigned, 3> A3;
static std::vector<A3> arcs_of(const Graph &G) { std::vector<A3> r; for (unsigned a = 0; a < G.m(); ++a) r.push_back({G.tail[a], G.head[a], G.weight[a]}); std::sort(r.begin(), r.end()); return r; }
static Graph draw(pbt::Gen &g, unsigned max_n, WeightMode mode, bool nonempty = false) { Graph G = draw_graph(g, max_n, mode); if (!G.n || (nonempty && !G.m())) throw pbt::Discard{}; sort_graph(G); g.note() << G.str(); return G; }
static void clean(std::initializer_list<std::string> l) { for (auto &x : l) unlink(x.c_str()); }

static void dimacs(pbt::Gen &g, bool long_file) {
	Graph G; if (long_file) { G.n = g.range(2, g.chance(1, 2) ? 100 : 100000); unsigned m = g.range(1000, g.chance(1, 4) ? 150000 : 12000); uint64_t s = g.bits64(); for (unsigned a = 0; a < m; ++a) { unsigned t = pbt::splitmix(s) % G.n, h = pbt::splitmix(s) % G.n; G.add(t, h, (unsigned)(pbt::splitmix(s) >> (g.chance(1, 2) ? 32 : 50))); } g.label("long file"); } else G = draw_graph(g, g.chance(1, 8) ? 60 : 10, g.pick(std::vector<WeightMode>{w_small, w_large, w_with_inf, w_saturating, w_zero_one})); if (!G.n) throw pbt::Discard{}; if (!long_file && g.chance(1, 5)) for (auto &w : G.weight) if (g.chance(1, 3)) w = 4294967295u - g.below(3);
	uint64_t js = long_file ? g.bits64() : 0; std::string gr = S("g.gr"), fo = S("fo"), he = S("he"), we = S("we"); clean({fo, he, we}); std::ostringstream o; auto junk = [&] { if (long_file) { if (pbt::splitmix(js) % 3000 == 0) o << "c a comment 1 2 3\n"; } else if (g.chance(1, 6)) o << (g.chance(1, 2) ? "c a comment 1 2 3\n" : "\n"); }; auto sp = [&] { return std::string(long_file ? 1 : 1 + g.below(2), ' '); };
	junk(); o << "p" << sp() << "sp" << sp() << G.n << sp() << G.m() << "\n"; unsigned bad = g.chance(1, 3) ? g.range(1, 8) : 0, at = g.below(G.m() + 1); int claimed = 0;
	if (bad == 8) { o.str(""); std::vector<std::string> w{"p", "sp", std::to_string(G.n), std::to_string(G.m())}; unsigned k = g.below(4); switch (g.below(3)) { case 0: w[k] = g.pick(std::vector<std::string>{"x", "a", "q", "-"}); break; case 1: w.erase(w.begin() + k); break; default: w.insert(w.begin() + k, "x"); } for (auto &x : w) o << x << " "; o << "\n"; at = G.m() + 1; }
	if (bad == 1) { o.str(""); } // no header
	if (bad == 2) { o.str(""); o << "p sp " << G.n << " " << G.m() + (g.chance(1, 2) || !G.m() ? 1 : -1) << "\n"; }
	for (unsigned a = 0; a <= G.m(); ++a) { junk(); if (a == at && bad >= 3) { unsigned t = 1 + g.below(G.n), h = 1 + g.below(G.n); switch (bad) { case 3: t = g.chance(1, 2) ? 0 : G.n + 1 + g.below(3); break; case 4: h = g.chance(1, 3) ? 0 : G.n + 1 + g.below(3); break; default: break; }
			if (bad == 5) o << "a " << t << " " << h << " -" << 1 + g.below(9) << "\n"; else if (bad == 6) o << "a " << t << " " << h << "\n"; else if (bad == 7) o << "b " << t << " " << h << " 3\n"; else o << "a " << t << " " << h << " 1\n"; claimed = 1; }
		if (a < G.m() && !(a == at && claimed)) o << "a" << sp() << G.tail[a] + 1 << sp() << G.head[a] + 1 << sp() << G.weight[a] << "\n"; }
	std::string text = o.str(); if (bad == 1 && text.find("p sp") != std::string::npos) throw pbt::Discard{}; spit(gr, text); g.note() << "bad=" << bad << " " << text.substr(0, 400);
	auto r = run("convert_road_dimacs_graph", {gr, fo, he, we});
	if (bad) { REQUIRE(mentions_exception(r), "convert_road_dimacs_graph accepts a broken file (" << bad << ")"); REQUIRE(!exists(fo) && !exists(he) && !exists(we), "convert_road_dimacs_graph writes files although the input is broken"); g.label("broken"); g.nontrivial(G.m() > 1); return; }
	REQUIRE(!mentions_exception(r), "convert_road_dimacs_graph: " << r.err); Graph H = read_graph(fo, he, we); REQUIRE_EQ(H.n, G.n, "node count"); REQUIRE(arcs_of(H) == arcs_of(G), "convert_road_dimacs_graph changes the arcs");
	for (unsigned a = 1; a < H.m(); ++a) REQUIRE(H.tail[a - 1] != H.tail[a] || H.head[a - 1] <= H.head[a], "convert_road_dimacs_graph: arcs of a node not sorted by head");
	// parallel arcs keep their order
	std::map<std::pair<unsigned, unsigned>, U> x, y; for (unsigned a = 0; a < G.m(); ++a) x[{G.tail[a], G.head[a]}].push_back(G.weight[a]); for (unsigned a = 0; a < H.m(); ++a) y[{H.tail[a], H.head[a]}].push_back(H.weight[a]); REQUIRE(x == y, "convert_road_dimacs_graph reorders parallel arcs");
	if (G.m()) { std::string g2 = S("g2.gr"); clean({g2}); r = run("export_road_dimacs_graph", {fo, he, we, g2}); REQUIRE(!mentions_exception(r), "export_road_dimacs_graph: " << r.err); std::istringstream in(slurp(g2)); std::string p, q; unsigned n, m; in >> p >> q >> n >> m; REQUIRE(p == "p" && q == "sp" && n == G.n && m == G.m(), "export_road_dimacs_graph: header");
		Graph K; K.n = n; std::string a; unsigned t, h, w; while (in >> a >> t >> h >> w) { REQUIRE(a == "a", "export_road_dimacs_graph: line"); K.add(t - 1, h - 1, w); } REQUIRE(arcs_of(K) == arcs_of(G), "export_road_dimacs_graph changes the arcs");
		clean({fo, he, we}); run("convert_road_dimacs_graph", {g2, fo, he, we}); Graph L = read_graph(fo, he, we); REQUIRE(L.tail == H.tail && L.head == H.head && L.weight == H.weight && L.n == H.n, "exporting and converting again changes the graph"); }
	g.label("valid"); g.nontrivial(G.m() > 2);
}
// the single precision number next to the given millionths of a degree
static bool nearest(float x, long long micro) { long double e = micro / 1e6L, half = ((long double)nextafterf(std::fabs(x), 1e9f) - std::fabs(x)) / 2; return fabsl(x - e) <= half * 1.000001L; }
static void coordinates(pbt::Gen &g, bool long_file) {
	unsigned n = long_file ? g.range(900, g.chance(1, 4) ? 100000 : 5000) : g.below(30); uint64_t s = long_file ? g.bits64() : 0; U p(n); if (long_file) { std::iota(p.begin(), p.end(), 0u); for (unsigned i = n; i > 1; --i) std::swap(p[i - 1], p[pbt::splitmix(s) % i]); g.label("long file"); } else p = draw_permutation(g, n); std::vector<long long> lat(n), lon(n); for (unsigned i = 0; i < n; ++i) { if (long_file) { lat[i] = (long long)(pbt::splitmix(s) % 180000001) - 90000000; lon[i] = (long long)(pbt::splitmix(s) % 360000001) - 180000000; continue; } lat[i] = g.irange(-90000000, 90000000); lon[i] = g.irange(-180000000, 180000000); if (g.chance(1, 6)) lat[i] = lon[i] = 0; }
	unsigned bad = g.chance(1, 3) ? g.range(1, 8) : 0; if (bad > 1 && n < 2) bad = 0; std::ostringstream o;
	if (bad == 6) { std::vector<std::string> w{"p", "aux", "sp", "co", std::to_string(n)}; unsigned k = g.below(5); switch (g.below(4)) { case 0: w[k] = k < 4 ? g.pick(std::vector<std::string>{"x", "v", "q", "cc"}) : "z"; break; case 1: w.erase(w.begin() + k); break; case 2: w.insert(w.begin() + k, "x"); break; default: w.push_back("5"); } for (auto &x : w) o << x << " "; o << "\n"; if (w[0][0] == 'c') { o.str(""); bad = 1; } }
	else if (bad != 1) o << "c x\np aux sp co " << n << "\n"; else if (g.chance(1, 2)) n = 0; unsigned at = n ? g.below(n) : 0;
	for (unsigned j = 0; j < n; ++j) { unsigned i = p[j]; if (long_file ? pbt::splitmix(s) % 5000 == 0 : g.chance(1, 6)) o << "c hello\n"; if (bad == 2 && j == at) continue; unsigned id = i + 1; if (bad == 3 && j == at) { id = p[(j + 1) % n] + 1; if (g.chance(1, 2)) { o << "v " << id << " " << lon[id - 1] << " " << lat[id - 1] << "\n"; continue; } } // the same line twice, one missing
		 if (bad == 4 && j == at) id = g.chance(1, 2) ? 0 : n + 1; o << "v " << id << " " << lon[i] << " " << lat[i]; if (bad == 5 && j == at) o << " 7"; if (bad == 8 && j == at) { switch (g.below(4)) { case 0: o << "\nw " << id << " 1 2"; break; case 1: o << "\nv " << id << " 1"; break; case 2: o << "\nv " << id << " 1 x"; break; default: o << "\nv"; } } o << "\n"; if (bad == 7 && j == at) { unsigned k = p[g.below(j + 1)]; bool same = g.chance(2, 3); o << "v " << k + 1 << " " << lon[k] + !same << " " << lat[k] << "\n"; } } // a line too many
	std::string f = S("c.co"), la = S("la"), lo = S("lo"); clean({la, lo}); spit(f, o.str()); g.note() << "bad=" << bad << " " << o.str().substr(0, 400); auto r = run("convert_road_dimacs_coordinates", {f, la, lo});
	if (bad) { REQUIRE(mentions_exception(r) && !exists(la) && !exists(lo), "convert_road_dimacs_coordinates accepts a broken file (" << bad << ")"); g.label("broken coordinates"); }
	else { REQUIRE(!mentions_exception(r), "convert_road_dimacs_coordinates: " << r.err); F a = load<float>(la), b = load<float>(lo); REQUIRE(a.size() == n && b.size() == n, "convert_road_dimacs_coordinates: number of nodes"); for (unsigned i = 0; i < n; ++i) REQUIRE(nearest(a[i], lat[i]) && nearest(b[i], lon[i]), "convert_road_dimacs_coordinates: node " << i << " at " << a[i] << "," << b[i] << " instead of " << lat[i] << "," << lon[i]); g.label("valid coordinates"); }
	g.nontrivial(n > 2);
}
static void queries(pbt::Gen &g) {
	WeightMode mode = g.pick(std::vector<WeightMode>{w_small, w_unit, w_zero_one, w_medium, w_large}); Graph G = draw(g, g.chance(1, 6) ? 80 : 12, mode); unsigned q = g.below(12); U s(q), t(q); for (unsigned i = 0; i < q; ++i) { s[i] = g.below(G.n); t[i] = g.below(G.n); }
	g.note() << " queries"; for (unsigned i = 0; i < q; ++i) g.note() << " " << s[i] << "->" << t[i];
	std::string fo = S("fo"), he = S("he"), we = S("we"), sf = S("s"), tf = S("t"), df = S("d"), ch = S("ch"), d2 = S("d2"); clean({df, d2, ch}); write_graph(G, fo, he, we); save(sf, s); save(tf, t); Adj adj = build_adj(G);
	auto r = run("run_dijkstra", {fo, he, we, sf, tf, df}); REQUIRE(!mentions_exception(r), "run_dijkstra: " << r.err); U d = load<unsigned>(df); REQUIRE_EQ((unsigned)d.size(), q, "run_dijkstra: number of distances");
	U exp(q); for (unsigned i = 0; i < q; ++i) { exp[i] = ref_sssp(G, adj, {{s[i], 0}})[t[i]]; REQUIRE_EQ(d[i], exp[i], "run_dijkstra: distance from " << s[i] << " to " << t[i]); }
	if (G.m()) {
		r = run("compute_contraction_hierarchy", {fo, he, we, ch}); REQUIRE(!mentions_exception(r) && exists(ch), "compute_contraction_hierarchy: " << r.err); r = run("run_contraction_hierarchy_query", {ch, sf, tf, d2}); REQUIRE(!mentions_exception(r), "run_contraction_hierarchy_query: " << r.err);
		d = load<unsigned>(d2); REQUIRE_EQ((unsigned)d.size(), q, "run_contraction_hierarchy_query: number of distances"); for (unsigned i = 0; i < q; ++i) REQUIRE_EQ(d[i], exp[i], "run_contraction_hierarchy_query: distance from " << s[i] << " to " << t[i]);
		r = run("examine_ch", {ch}); { auto loaded = RoutingKit::ContractionHierarchy::load_file(ch); for (auto &x : {"node_count : " + std::to_string(G.n), "forward_ch_arc_count : " + std::to_string(loaded.forward.head.size()), "backward_ch_arc_count : " + std::to_string(loaded.backward.head.size())}) REQUIRE(("\n" + r.out).find("\n" + x + "\n") != std::string::npos, "examine_ch should say \"" << x << "\" but says " << r.out); }
		if (g.chance(1, 3)) { // paths as text
			F la, lo; for (unsigned i = 0; i < G.n; ++i) { lo.push_back(100 + i + 0.0123457f * (1 + g.below(80))); la.push_back(-(1 + (float)i) / 7); } save(S("la"), la); save(S("lo"), lo); unsigned over = g.chance(1, 4) ? g.range(1, 2) : 0; std::string in; for (unsigned i = 0; i < q; ++i) in += std::to_string(s[i]) + " " + std::to_string(t[i]) + "\n"; if (over) in += over == 1 ? std::to_string(G.n) + " 0\n" : "0 " + std::to_string(G.n) + "\n";
			r = run("show_path", {ch, S("la"), S("lo")}, in); REQUIRE_EQ(mentions_exception(r), over > 0, "show_path: exception"); size_t pos = 0; std::map<std::pair<unsigned, unsigned>, unsigned> best; for (unsigned a = 0; a < G.m(); ++a) { auto k = std::make_pair(G.tail[a], G.head[a]); if (!best.count(k) || best[k] > G.weight[a]) best[k] = G.weight[a]; }
			for (unsigned i = 0; i < q; ++i) {
				size_t e = r.out.find("</kml>", pos); REQUIRE(e != std::string::npos, "show_path: no document for query " << i); std::string doc = r.out.substr(pos, e - pos); pos = e + 6; REQUIRE(doc.find("Path of length " + std::to_string(exp[i]) + " meter") != std::string::npos, "show_path: length of query " << i);
				size_t b = doc.find("<LineString>"); b = doc.find("<coordinates>", b); std::istringstream l(doc.substr(b + 13)); std::string w; U path; auto node_at = [&](const std::string &w) { float x, y, z; REQUIRE(sscanf(w.c_str(), "%f,%f,%f", &x, &y, &z) == 3, "show_path: coordinates " << w); unsigned v = std::find(lo.begin(), lo.end(), x) - lo.begin(); REQUIRE(v < G.n && la[v] == y, "show_path: no node lies at the printed coordinates " << w); return v; };
				while (l >> w && w[0] != '<') path.push_back(node_at(w));
				size_t p1 = doc.find("<Point><coordinates>"), p2 = doc.find("<Point><coordinates>", p1 + 1); REQUIRE(p1 != std::string::npos && p2 != std::string::npos && node_at(doc.substr(p1 + 20)) == s[i] && node_at(doc.substr(p2 + 20)) == t[i], "show_path: the marks of source and target of query " << i);
				if (exp[i] == INF) REQUIRE(path.empty(), "show_path: path between unconnected nodes"); else { REQUIRE(!path.empty() && path[0] == s[i] && path.back() == t[i], "show_path: ends of the path"); unsigned len = 0; for (unsigned j = 1; j < path.size(); ++j) { REQUIRE(best.count({path[j - 1], path[j]}), "show_path: no arc"); len += best[{path[j - 1], path[j]}]; } REQUIRE_EQ(len, exp[i], "show_path: length of the shown path"); }
			}
			REQUIRE(r.out.find("</kml>", pos) == std::string::npos, "show_path: a path too many");
		}
	}
	// broken files are reported, not used
	if (g.chance(1, 3)) {
		unsigned bad = g.below(6); std::string what; clean({df}); U f = first_out_of(G), h = G.head, w = G.weight;
		switch (bad) { case 0: f.clear(); break; case 1: f.back() += 1; break; case 2: f[0] = 1; break; case 3: if (h.empty()) throw pbt::Discard{}; h[g.below(h.size())] = G.n + g.below(2); break; case 4: w.push_back(1); break; default: t.push_back(0); break; }
		save(fo, f); save(he, h); save(we, w); save(tf, t); r = run("run_dijkstra", {fo, he, we, sf, tf, df}); REQUIRE(mentions_exception(r) && !exists(df), "run_dijkstra accepts inconsistent files (" << bad << ")");
		if (bad < 5) { clean({ch}); r = run("compute_contraction_hierarchy", {fo, he, we, ch}); REQUIRE(mentions_exception(r) && !exists(ch), "compute_contraction_hierarchy accepts inconsistent files (" << bad << ")"); }
		else if (G.m()) { clean({d2}); r = run("run_contraction_hierarchy_query", {ch, sf, tf, d2}); REQUIRE(mentions_exception(r) && !exists(d2), "run_contraction_hierarchy_query accepts source and target lists of different length"); }
		g.label("inconsistent files");
	}
	g.label(G.m() ? "queries" : "no arcs"); g.nontrivial(q > 1 && G.m() > 1);
}
static void permute(pbt::Gen &g) {
	Graph G = draw(g, g.chance(1, 6) ? 60 : 10, draw_mode(g), true); std::string fo = S("fo"), he = S("he"), id = S("id"); write_graph(G, fo, he, id); U ids(G.m()); std::iota(ids.begin(), ids.end(), 100u); save(id, ids); unsigned k = g.chance(1, 10) ? g.below(12) : g.below(3); std::vector<std::string> args = {std::to_string(g.below(100000)), fo, he, id}; std::vector<U> ws;
	for (unsigned i = 0; i < k; ++i) { U w(G.m()); for (auto &x : w) x = g.below(1000); ws.push_back(w); std::string n = S("w" + std::to_string(i)); save(n, w); args.push_back(n); }
	auto r = run("randomly_permute_nodes", args); REQUIRE(!mentions_exception(r), "randomly_permute_nodes: " << r.err); Graph H = read_graph(fo, he, id); REQUIRE_EQ(H.n, G.n, "node count"); REQUIRE_EQ(H.m(), G.m(), "arc count"); std::vector<long> to(G.n, -1), from(G.n, -1); std::set<unsigned> seen;
	auto map = [&](unsigned x, unsigned y) { REQUIRE((to[x] < 0 || to[x] == y) && (from[y] < 0 || from[y] == x), "randomly_permute_nodes: node " << x << " is not mapped consistently"); to[x] = y; from[y] = x; };
	for (unsigned a = 0; a < H.m(); ++a) { unsigned b = H.weight[a] - 100; REQUIRE(b < G.m() && seen.insert(b).second, "randomly_permute_nodes: arc " << b << " is lost or duplicated"); map(G.tail[b], H.tail[a]); map(G.head[b], H.head[a]); if (a) REQUIRE(H.tail[a - 1] != H.tail[a] || H.head[a - 1] <= H.head[a], "randomly_permute_nodes: not sorted by head"); }
	for (unsigned i = 0; i < k; ++i) { U w = load<unsigned>(S("w" + std::to_string(i))); REQUIRE_EQ(w.size(), ws[i].size(), "size of weight"); for (unsigned a = 0; a < H.m(); ++a) REQUIRE_EQ(w[a], ws[i][H.weight[a] - 100], "randomly_permute_nodes: weight " << i << " of arc " << H.weight[a] - 100); }
	unsigned known = 0, fixed = 0; for (unsigned x = 0; x < G.n; ++x) if (to[x] >= 0) { ++known; fixed += to[x] == x; } REQUIRE(known < 16 || fixed < known, "randomly_permute_nodes: none of " << known << " nodes was renumbered");
	if (g.chance(1, 3)) { std::vector<std::string> first; for (unsigned i = 1; i < args.size(); ++i) first.push_back(slurp(args[i])); write_graph(G, fo, he, id); save(id, ids); for (unsigned i = 0; i < k; ++i) save(args[4 + i], ws[i]); run("randomly_permute_nodes", args); for (unsigned i = 1; i < args.size(); ++i) REQUIRE(slurp(args[i]) == first[i - 1], "randomly_permute_nodes: same seed, other result"); }
	g.nontrivial(G.m() > 2); g.label("permute");
}
static long double dist(double la, double lo, double lb, double lob) { const long double r = 3.14159265358979323846264338327950288L / 180; long double u = sinl((lb - la) * r / 2), v = sinl((lob - lo) * r / 2); return 2 * 6371000.785L * asinl(fminl(1.0L, sqrtl(u * u + cosl(la * r) * cosl(lb * r) * v * v))); }
static void geometry(pbt::Gen &g) {
	Graph G = draw(g, g.chance(1, 6) ? 60 : 12, w_small, true); if (!G.n) throw pbt::Discard{}; F la(G.n), lo(G.n); unsigned style = g.below(3); for (unsigned i = 0; i < G.n; ++i) { la[i] = style == 0 ? g.irange(-900, 900) / 10.0f : 49 + g.below(1000) / 1000.0f; lo[i] = style == 0 ? g.irange(-1800, 1800) / 10.0f : style == 1 ? 8 + g.below(1000) / 1000.0f : 8 + i * 0.001f; }
	std::string fo = S("fo"), he = S("he"), we = S("we"), laf = S("la"), lof = S("lo"), of = S("o"); clean({of}); write_graph(G, fo, he, we); save(laf, la); save(lof, lo);
	if (G.m()) { auto r = run("compute_geographic_distance_weights", {fo, he, laf, lof, of}); REQUIRE(!mentions_exception(r), "compute_geographic_distance_weights: " << r.err); U w = load<unsigned>(of); REQUIRE_EQ((unsigned)w.size(), G.m(), "compute_geographic_distance_weights: number of weights");
		for (unsigned a = 0; a < G.m(); ++a) { long double d = dist(la[G.tail[a]], lo[G.tail[a]], la[G.head[a]], lo[G.head[a]]); long double eps = (d < 1 || d > 2e7L ? 0.4L : 0.05L / d) + 0.002L + 1e-6L * d; REQUIRE(w[a] <= d + eps && w[a] > d - 1 - eps, // whole metres, rounded down
			 "compute_geographic_distance_weights: arc " << G.tail[a] << "->" << G.head[a] << " has " << w[a] << " instead of " << (double)d); } }
	clean({of}); auto r = run("compute_nested_dissection_order", {fo, he, laf, lof, of}); REQUIRE(!mentions_exception(r), "compute_nested_dissection_order: " << r.err); U o = load<unsigned>(of), s = o; std::sort(s.begin(), s.end()); REQUIRE_EQ((unsigned)o.size(), G.n, "compute_nested_dissection_order: length"); for (unsigned i = 0; i < G.n; ++i) REQUIRE(s[i] == i, "compute_nested_dissection_order: not a permutation");
	// drawings: one line per arc
	std::string dot = S("x.dot"); clean({dot}); run("graph_to_dot", {fo, he, we, dot}); std::string t = slurp(dot); for (auto &c : t) if (c == '{' || c == ';' || c == '[' || c == ']' || c == '"' || c == '=' || c == '}') c = ' '; std::istringstream in(t); std::string x; std::vector<A3> got; in >> x >> x; unsigned p, q, w; std::string arrow, label; while (in >> p >> arrow >> q >> label >> w) { REQUIRE(arrow == "->" && label == "label", "graph_to_dot: " << arrow << " " << label); got.push_back({p, q, w}); } std::sort(got.begin(), got.end()); REQUIRE(got == arcs_of(G), "graph_to_dot: the drawn arcs differ");
	auto range = [](const F &f) { return *std::max_element(f.begin(), f.end()) - *std::min_element(f.begin(), f.end()); };
	if (range(la) > 0.01 && range(lo) > 0.01) { std::string svg = S("x.svg"); clean({svg}); run("graph_to_svg", {fo, he, laf, lof, svg}); t = slurp(svg); size_t pos = 0; unsigned a = 0; double mla = *std::min_element(la.begin(), la.end()), mlo = *std::min_element(lo.begin(), lo.end()), dla = range(la), dlo = range(lo);
		while ((pos = t.find("<line x1=", pos)) != std::string::npos) { double x1, y1, x2, y2; REQUIRE(sscanf(t.c_str() + pos, "<line x1=\"%lf\" y1=\"%lf\" x2=\"%lf\" y2=\"%lf\"", &x1, &y1, &x2, &y2) == 4, "graph_to_svg: line"); REQUIRE(a < G.m(), "graph_to_svg: too many lines"); unsigned u = G.tail[a], v = G.head[a]; auto near = [&](double s, double e) { REQUIRE(std::fabs(s - e) < 0.05, "graph_to_svg: coordinate " << s << " instead of " << e << " of arc " << u << "->" << v); };
			near(x1, (lo[u] - mlo) * 300 / dlo); near(y1, 300 - (la[u] - mla) * 300 / dla); near(x2, (lo[v] - mlo) * 300 / dlo); near(y2, 300 - (la[v] - mla) * 300 / dla); ++a; ++pos; } REQUIRE_EQ(a, G.m(), "graph_to_svg: number of lines"); }
	g.nontrivial(G.m() > 1 && G.n > 2); g.label("geometry");
}
static void ranks(pbt::Gen &g) {
	Graph G; if (g.chance(1, 4)) { // thousands of nodes, distances of billions
			G.n = g.range(300, 5000); uint64_t st = g.bits64(); unsigned deg = g.range(2, 4), bits = g.pick(std::vector<unsigned>{3, 12, 24, 26}); for (unsigned v = 0; v < G.n; ++v) for (unsigned i = 0; i < deg; ++i) G.add(v, (unsigned)(pbt::splitmix(st) % G.n), (unsigned)(pbt::splitmix(st) >> (64 - bits))); g.note() << G.n << " nodes, degree " << deg << ", weights of " << bits << " bits"; g.label("large"); }
	else G = draw(g, g.chance(1, 2) ? 300 : 90, g.pick(std::vector<WeightMode>{w_small, w_unit, w_medium, w_zero_one}));
	unsigned k = g.below(6); std::string fo = S("fo"), he = S("he"), we = S("we"), sf = S("s"), tf = S("t"), rf = S("r"), df = S("d"); clean({sf, tf, rf, df}); write_graph(G, fo, he, we);
	std::string kk = std::to_string(k); if (g.chance(1, 4)) { kk = S("k"); save(kk, U(k, 9)); } auto r = run("generate_dijkstra_rank_test_queries", {fo, he, we, kk, std::to_string(g.below(1000)), sf, tf, rf, df}); REQUIRE(!mentions_exception(r), "generate_dijkstra_rank_test_queries: " << r.err); U s = load<unsigned>(sf), t = load<unsigned>(tf), rk = load<unsigned>(rf), d = load<unsigned>(df); REQUIRE(s.size() == t.size() && s.size() == rk.size() && s.size() == d.size(), "generate_dijkstra_rank_test_queries: sizes");
	Adj adj = build_adj(G); unsigned groups = 0, i = 0;
	while (i < s.size()) { U dd = ref_sssp(G, adj, {{s[i], 0}}); unsigned reach = 0; for (auto x : dd) if (x < INF) ++reach; ++groups; unsigned e = 6; while ((2u << e) <= reach) ++e; REQUIRE(reach >= 64, "generate_dijkstra_rank_test_queries: source reaches only " << reach << " nodes");
		for (unsigned want = 6; want <= e; ++want, ++i) { REQUIRE(i < s.size() && rk[i] == want && s[i] < G.n && t[i] < G.n, "generate_dijkstra_rank_test_queries: rank " << want << " is missing"); REQUIRE_EQ(d[i], dd[t[i]], "generate_dijkstra_rank_test_queries: distance of query " << i); unsigned less = 0, le = 0; for (auto x : dd) { less += x < d[i]; le += x <= d[i]; } REQUIRE(less < (1u << want) && le >= (1u << want), "generate_dijkstra_rank_test_queries: target of rank " << want << " is not the " << (1u << want) << "th node"); } }
	REQUIRE(groups <= k, "generate_dijkstra_rank_test_queries: too many sources"); g.nontrivial(!s.empty()); g.label("ranks");
}
// every tool that reads a graph reports files that do not fit together and writes nothing
static void inconsistent(pbt::Gen &g) {
	Graph G = draw(g, 12, w_small, true); U f = first_out_of(G), h = G.head, w = G.weight, qs(3), qt(3); for (auto &x : qs) x = g.below(G.n); for (auto &x : qt) x = g.below(G.n); F la(G.n), lo(G.n); for (unsigned i = 0; i < G.n; ++i) { la[i] = 49 + g.below(1000) / 1000.0f; lo[i] = 8 + g.below(1000) / 1000.0f; }
	std::string fo = S("fo"), he = S("he"), we = S("we"), w2 = S("w2"), laf = S("la"), lof = S("lo"), sf = S("s"), tf = S("t"), rf = S("r"), of = S("o"), ch = S("ch"); clean({of, rf, S("o2"), S("o3")}); write_graph(G, fo, he, we); save(w2, w); save(laf, la); save(lof, lo); save(sf, qs); save(tf, qt);
	struct T { const char *name; bool graph, weight, geo, query; }; static const std::vector<T> all = {{"export_road_dimacs_graph", 1, 1, 0, 0}, {"randomly_permute_nodes", 1, 1, 0, 0}, {"compute_geographic_distance_weights", 1, 0, 1, 0}, {"compute_nested_dissection_order", 1, 0, 1, 0}, {"graph_to_dot", 1, 1, 0, 0}, {"graph_to_svg", 1, 0, 1, 0}, {"generate_dijkstra_rank_test_queries", 1, 1, 0, 0}, {"run_dijkstra", 1, 1, 0, 1}, {"compute_contraction_hierarchy", 1, 1, 0, 0}, {"run_contraction_hierarchy_query", 0, 0, 0, 1}, {"show_path", 0, 0, 1, 0}};
	const T &t = g.pick(all); std::string name = t.name; std::vector<std::string> args, in_files, out_files; std::string input;
	if (name == "export_road_dimacs_graph") { args = {fo, he, we, of}; out_files = {of}; } else if (name == "randomly_permute_nodes") { args = {"17", fo, he, w2, we}; in_files = {fo, he, w2, we}; } else if (name == "compute_geographic_distance_weights" || name == "compute_nested_dissection_order" || name == "graph_to_svg") { args = {fo, he, laf, lof, of}; out_files = {of}; } else if (name == "graph_to_dot") { args = {fo, he, we, of}; out_files = {of}; }
	else if (name == "generate_dijkstra_rank_test_queries") { args = {fo, he, we, "2", "5", of, rf, S("o2"), S("o3")}; out_files = {of, rf, S("o2"), S("o3")}; } else if (name == "run_dijkstra") { args = {fo, he, we, sf, tf, of}; out_files = {of}; } else if (name == "compute_contraction_hierarchy") { args = {fo, he, we, of}; out_files = {of}; } else if (name == "run_contraction_hierarchy_query") { args = {ch, sf, tf, of}; out_files = {of}; } else { args = {ch, laf, lof}; input = std::to_string(qs[0]) + " " + std::to_string(qt[0]) + "\n"; }
	if (!t.graph) { auto r = run("compute_contraction_hierarchy", {fo, he, we, ch}); REQUIRE(exists(ch), "compute_contraction_hierarchy: " << r.err); }
	std::vector<int> kinds; if (t.graph) for (int k : {0, 1, 2, 3, 4}) kinds.push_back(k); if (t.weight) kinds.push_back(5); if (t.geo) kinds.push_back(6); if (t.query) { kinds.push_back(7); kinds.push_back(8); } kinds.push_back(9); kinds.push_back(10); int kind = g.pick(kinds);
	auto wrong_size = [&](auto &v) { if (g.chance(1, 2) && !v.empty()) v.resize(g.chance(1, 2) ? v.size() - 1 : g.below(v.size())); else v.resize(v.size() + 1 + g.below(3), v.empty() ? 0 : v[0]); };
	switch (kind) {
		case 0: save(fo, U()); break;
		case 1: if (g.chance(1, 2)) { f.back() += 1 + g.below(3); save(fo, f); } else { wrong_size(h); save(he, h); } break;
		case 2: f[0] = 1 + g.below(2); save(fo, f); break;
		case 3: h[g.below(h.size())] = g.chance(2, 3) ? G.n + g.below(2) : g.chance(1, 2) ? 4294967295u : 2147483648u + g.below(3); save(he, h); break;
		case 4: { if (G.n < 2) throw pbt::Discard{}; unsigned i = 1 + g.below(G.n - 1); f[i] = f[i + 1] + 1 + g.below(2); save(fo, f); break; }
		case 5: wrong_size(w); save(name == "randomly_permute_nodes" && g.chance(1, 2) ? w2 : we, w); break;
		case 6: if (g.chance(1, 2)) { wrong_size(la); save(laf, la); } else { wrong_size(lo); save(lof, lo); } break;
		case 7: (g.chance(1, 2) ? qs : qt)[g.below(3)] = G.n + (g.chance(2, 3) ? 0 : g.below(1000000)); save(sf, qs); save(tf, qt); break;
		case 8: wrong_size(g.chance(1, 2) ? qs : qt); save(sf, qs); save(tf, qt); break;
		case 9: { std::vector<std::string> c; for (auto &x : args) if (exists(x)) c.push_back(x); const std::string &x = g.pick(c); if (x == ch) throw pbt::Discard{}; spit(x, slurp(x) + std::string(1 + g.below(3), 'x')); break; } // no whole number of elements
		default: { std::vector<std::string> c; for (auto &x : args) if (exists(x)) c.push_back(x); unlink(g.pick(c).c_str()); break; }
	}
	g.note() << " " << name << " damage " << kind; std::vector<std::string> before; for (auto &x : in_files) before.push_back(exists(x) ? slurp(x) : "missing");
	auto r = run(name, args, input); REQUIRE(mentions_exception(r), name << " does not report files that do not fit together (" << kind << "): " << r.out << r.err); for (auto &x : out_files) REQUIRE(!exists(x), name << " writes a file although the input is inconsistent (" << kind << ")"); for (unsigned i = 0; i < in_files.size(); ++i) REQUIRE((exists(in_files[i]) ? slurp(in_files[i]) : "missing") == before[i], name << " changes its files although they are inconsistent (" << kind << ")");
	if (name == "show_path") REQUIRE(r.out.find("</kml>") == std::string::npos, "show_path shows a path although the files do not fit"); g.label(name); g.nontrivial(G.m() > 1);
}
pbt::Check pbt::make_check() {
	return {"P26", "non-trivial: graphs with at least two arcs (more than two for DIMACS and permutations) and at least two queries; rank queries: at least one query was produced",
		{{"dimacs", 1200, 20000, [](pbt::Gen &g) { dimacs(g, false); }}, {"coordinates", 500, 8000, [](pbt::Gen &g) { coordinates(g, false); }}, {"dimacs_long", 40, 1000, [](pbt::Gen &g) { dimacs(g, true); }, 120}, {"coordinates_long", 40, 1000, [](pbt::Gen &g) { coordinates(g, true); }, 120}, {"queries", 1200, 20000, queries}, {"permute", 600, 10000, permute}, {"geometry", 500, 8000, geometry}, {"ranks", 300, 5000, ranks}, {"inconsistent", 1500, 20000, inconsistent}}};
}
