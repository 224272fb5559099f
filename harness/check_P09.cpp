// P09: any history of calls on one CCH query object (resets, metric changes, pinned one-to-many and many-to-one runs) answers like fresh objects.
#include "cch_common.hpp"
using namespace cchc;

struct World {
	Graph G; Cch cch; U w; Metric metric; std::vector<U> D; WeightMode mode;
	void recustomize() { D = ref_all_pairs(G, &w); metric.customize(); }
};
struct Model {
	enum M { idle, run, tpin, trun, spin, srun } mode = idle;
	Terminals S, T; U pinned;
};

// worlds may share the index (two metrics on one CCH) or only the node count
static void draw_worlds(pbt::Gen &g, unsigned max_n, std::vector<std::unique_ptr<World>> &W) {
	unsigned k = 1 + g.below(4);
	for (unsigned i = 0; i < k; ++i) {
		W.emplace_back(new World); World &w = *W.back();
		w.mode = draw_mode(g);
		unsigned kind = i ? g.below(3) : 2;
		if (kind == 0) { w.G = W[0]->G; for (auto &x : w.G.weight) x = draw_weight(g, w.mode); g.note() << " world" << i << ": second metric on index 0"; }
		else {
			if (kind == 1) { w.G = W[0]->G; for (auto &x : w.G.weight) x = draw_weight(g, w.mode); unsigned c = g.below(w.G.m() + 1); w.G.tail.resize(c); w.G.head.resize(c); w.G.weight.resize(c); }
			else w.G = draw_graph(g, max_n, w.mode);
			w.cch = draw_cch(g, w.G);
			g.note() << " world" << i << ": ";
		}
		g.note() << w.G.str();
		w.w = padded(w.G.weight);
		w.metric.reset(kind == 0 ? W[0]->cch : w.cch, w.w);
		w.recustomize();
	}
}

static void check_run(pbt::Gen &g, const World &w, Query &q, const Model &m, const std::string &what) {
	check_cch_query(w.G, w.w, q, m.S, m.T, ref_distance(w.D, m.S, m.T), what, g.below(3));
}
static void check_pinned(const World &w, Query &q, const Model &m, const std::string &what) {
	U want;
	for (auto p : m.pinned) want.push_back(m.mode == Model::trun ? ref_distance(w.D, m.S, {{p, 0}}) : ref_distance(w.D, {{p, 0}}, m.T));
	U got = m.mode == Model::trun ? q.get_distances_to_targets() : q.get_distances_to_sources();
	REQUIRE_EQ(got, want, what << ": pinned distances");
	got.assign(want.size() + 1, 4242);
	if (m.mode == Model::trun) q.get_distances_to_targets(got.data()); else q.get_distances_to_sources(got.data());
	REQUIRE_EQ(got.back(), 4242u, what << ": writes past the output array");
	got.pop_back();
	REQUIRE_EQ(got, want, what << ": pinned distances");
}

static void history(pbt::Gen &g, unsigned max_n, unsigned max_ops) {
	std::vector<std::unique_ptr<World>> W; draw_worlds(g, max_n, W);
	unsigned cur = 0;
	// the storage of the object held another query object before
	alignas(Query) static unsigned char storage[sizeof(Query)];
	Query *q;
	switch (g.below(3)) {
	case 0: q = new (storage) Query(W[0]->metric); break;
	case 1: q = new (storage) Query; q->reset(W[0]->metric); break;
	default: {
		q = new (storage) Query(W[0]->metric); q->add_source(0).add_target(0).run(); q->~Query();
		asm volatile("" ::"r"(storage) : "memory");
		q = new (storage) Query; asm volatile("" ::"r"(q) : "memory"); q->reset(W[0]->metric);
	}
	}
	struct Guard { Query *q; ~Guard() { q->~Query(); } } guard{q};
	Model m;
	unsigned ops = 1 + g.below(max_ops), runs = 0;
	for (unsigned i = 0; i < ops; ++i) {
		World *w = W[cur].get();
		std::string what = "op " + std::to_string(i);
		unsigned n = w->G.n;
		unsigned op = g.below(12);
		auto addS = [&] { Terminals t = draw_terminals(g, n, w->mode); add_all(*q, t, {}); m.S.insert(m.S.end(), t.begin(), t.end()); g.note() << "; add_source" << show_terminals(t); };
		auto addT = [&] { Terminals t = draw_terminals(g, n, w->mode); add_all(*q, {}, t); m.T.insert(m.T.end(), t.begin(), t.end()); g.note() << "; add_target" << show_terminals(t); };
		if (op == 0) { g.note() << "; reset"; q->reset(); m = Model(); }
		else if (op == 1) { cur = g.below(W.size()); g.note() << "; reset(world" << cur << ")"; q->reset(W[cur]->metric); m = Model(); }
		else if (op == 2) {
			g.note() << "; copy";
			Query c(*q);
			if (m.mode == Model::run) check_run(g, *w, c, m, what + " (copy)");
			if (m.mode == Model::trun || m.mode == Model::srun) check_pinned(*w, c, m, what + " (copy)");
			c.reset();
			if (g.chance(1, 2)) { *q = c; m = Model(); } else c.add_source(0).add_target(0).run();
		}
		else if (op == 3 && (m.mode == Model::idle || m.mode == Model::tpin || m.mode == Model::spin)) {
			// new weights: queries use them after the metric has been customized anew
			unsigned k = g.below(4);
			for (unsigned j = 0; j < k && w->G.m(); ++j) { unsigned a = g.below(w->G.m()); w->w[a] = draw_weight(g, w->mode); g.note() << " w[" << a << "]=" << w->w[a]; }
			g.note() << "; customize"; w->recustomize();
		}
		else switch (m.mode) {
		case Model::idle: {
			unsigned k = g.below(6);
			if (!m.S.empty() || !m.T.empty()) k = g.below(4);
			if (k <= 3) {
				if (m.S.empty() || k == 0) addS();
				else if (m.T.empty() || k == 1) addT();
				else { g.note() << "; run"; q->run(); m.mode = Model::run; ++runs; check_run(g, *w, *q, m, what); }
			} else {
				unsigned c = g.chance(1, 4) ? g.below(2 * n + 3) : g.below(6); m.pinned.clear();
				for (unsigned j = 0; j < c; ++j) m.pinned.push_back(g.below(n));
				g.note() << (k == 4 ? "; pin_targets" : "; pin_sources") << pbt::show(m.pinned);
				if (k == 4) { q->pin_targets(m.pinned); m.mode = Model::tpin; } else { q->pin_sources(m.pinned); m.mode = Model::spin; }
			}
			break;
		}
		case Model::run: check_run(g, *w, *q, m, what); break;
		case Model::tpin:
			if (m.S.empty() || g.chance(1, 3)) addS();
			else if (g.chance(1, 8)) { g.note() << "; reset_source"; q->reset_source(); m.S.clear(); }
			else { g.note() << "; run_to_pinned_targets"; q->run_to_pinned_targets(); m.mode = Model::trun; ++runs; check_pinned(*w, *q, m, what); }
			break;
		case Model::spin:
			if (m.T.empty() || g.chance(1, 3)) addT();
			else if (g.chance(1, 8)) { g.note() << "; reset_target"; q->reset_target(); m.T.clear(); }
			else { g.note() << "; run_to_pinned_sources"; q->run_to_pinned_sources(); m.mode = Model::srun; ++runs; check_pinned(*w, *q, m, what); }
			break;
		case Model::trun:
			if (g.chance(1, 3)) check_pinned(*w, *q, m, what);
			else { g.note() << "; reset_source"; q->reset_source(); m.S.clear(); m.mode = Model::tpin; }
			break;
		case Model::srun:
			if (g.chance(1, 3)) check_pinned(*w, *q, m, what);
			else { g.note() << "; reset_target"; q->reset_target(); m.T.clear(); m.mode = Model::spin; }
			break;
		}
	}
	g.nontrivial(runs >= 2);
	g.label(runs >= 5 ? "runs>=5" : runs >= 2 ? "runs>=2" : "runs<2");
}

// The index is rebuilt in place (same address) and the query object is attached to the new metric.
// With the same node count the query object is reset first; see KNOWN_FINDINGS.txt for the other case.
static void replaced(pbt::Gen &g) {
	WeightMode mode = draw_mode(g);
	Cch cch; Metric m; Query q; Partial part; Parallel par; U w;
	unsigned rounds = 2 + g.below(3), last_n = 0; unsigned finite = 0;
	for (unsigned i = 0; i < rounds; ++i) {
		Graph G = draw_graph(g, 9, mode);
		g.note() << " round " << i << ": " << G.str();
		if (i && G.n == last_n) q.reset();
		w = padded(G.weight);
		cch = draw_cch(g, G);
		m.reset(cch, w);
		unsigned how = g.below(3);
		if (how == 0) { m.customize(); part.reset(cch); for (unsigned k = 0; k < 3 && G.m(); ++k) { unsigned a = g.below(G.m()); w[a] = draw_weight(g, mode); part.update_arc(a); } part.customize(m); }
		else if (how == 1) { par.reset(cch); par.customize(m, 2); }
		else m.customize();
		auto D = ref_all_pairs(G, &w);
		q.reset(m);
		for (unsigned k = 0; k < 6; ++k) {
			Terminals S = draw_terminals(g, G.n, mode), T = draw_terminals(g, G.n, mode);
			if (k) q.reset();
			add_all(q, S, T); q.run();
			unsigned want = ref_distance(D, S, T);
			check_cch_query(G, w, q, S, T, want, "round " + std::to_string(i), k);
			if (want != INF && want) ++finite;
		}
		last_n = G.n;
	}
	g.nontrivial(finite >= 2);
}

static void large(pbt::Gen &g) {
	static const std::vector<WeightMode> ms = {w_small, w_unit, w_zero_one, w_medium, w_large, w_with_inf};
	Graph G = draw_graph(g, g.thorough() ? 1000 : 300, g.pick(ms), true, 1200);
	g.note() << "n=" << G.n << " m=" << G.m();
	Cch cch = draw_cch(g, G);
	U w = padded(G.weight); Metric m(cch, w); m.customize();
	Adj fwd = build_adj(G), bwd = build_adj(G, true);
	U pinned; unsigned len = 1 + g.below(2 * G.n); for (unsigned i = 0; i < len; ++i) pinned.push_back(g.below(G.n));
	Query q(m), p(m), r(m); q.pin_targets(pinned); p.pin_sources(pinned);
	unsigned finite = 0;
	for (unsigned i = 0; i < 12; ++i) {
		unsigned x = g.below(G.n), y = g.below(G.n);
		U df = ref_sssp(G, fwd, {{x, 0}, {y, 3}}), db = ref_sssp(G, bwd, {{x, 0}, {y, 3}}, true);
		U a = q.reset_source().add_source(x).add_source(y, 3).run_to_pinned_targets().get_distances_to_targets();
		U b = p.reset_target().add_target(x).add_target(y, 3).run_to_pinned_sources().get_distances_to_sources();
		for (unsigned j = 0; j < len; ++j) {
			REQUIRE_EQ(a[j], df[pinned[j]], "distance " << x << " -> pinned " << pinned[j]);
			REQUIRE_EQ(b[j], db[pinned[j]], "distance pinned " << pinned[j] << " -> " << x);
			if (a[j] != INF && a[j]) ++finite;
		}
		unsigned t = pinned[g.below(len)];
		REQUIRE_EQ(r.reset().add_source(x).add_source(y, 3).add_target(t).run().get_distance(), df[t], "point-to-point distance to " << t);
	}
	g.nontrivial(finite > 5);
}

// more pinned entries and nodes than fit into 16 bits
static void huge(pbt::Gen &g, bool wide) {
	U order; Graph G = wide ? draw_wide_graph(g, &order, nullptr) : draw_huge_graph(g, &order); Adj adj = build_adj(G);
	Cch cch(order, G.tail, G.head, [](const std::string &) {}, g.chance(1, 2));
	REQUIRE_EQ(cch.node_count(), G.n, "node count"); REQUIRE_EQ(cch.input_arc_count(), G.m(), "input arc count");
	Adj bwd = build_adj(G, true); Metric m(cch, G.weight); m.customize();
	U pinned; uint64_t r = g.bits64(); unsigned len = wide ? 1 + g.below(3000) : 65530 + g.below(30000); for (unsigned i = 0; i < len; ++i) pinned.push_back(i < G.n && (r & 1) ? i : pbt::splitmix(r) % G.n);
	Query q(m), p(m); q.pin_targets(pinned); p.pin_sources(pinned);
	unsigned finite = 0;
	for (unsigned k = 0; k < (wide ? 8u : 2u); ++k) {
		unsigned x = g.below(G.n);
		U df = ref_sssp(G, adj, {{x, 0}}), db = ref_sssp(G, bwd, {{x, 0}}, true);
		U a = q.reset_source().add_source(x).run_to_pinned_targets().get_distances_to_targets();
		U b = p.reset_target().add_target(x).run_to_pinned_sources().get_distances_to_sources();
		REQUIRE_EQ(a.size(), pinned.size(), "number of distances"); REQUIRE_EQ(b.size(), pinned.size(), "number of distances");
		for (unsigned i = 0; i < len; ++i) {
			REQUIRE_EQ(a[i], df[pinned[i]], "distance " << x << " -> pinned entry " << i << " = " << pinned[i]);
			REQUIRE_EQ(b[i], db[pinned[i]], "distance pinned entry " << i << " = " << pinned[i] << " -> " << x);
			if (a[i] != INF && a[i]) ++finite;
		}
	}
	g.nontrivial(finite > 5);
}

// queries with very many and with few terminals on one object
static void many(pbt::Gen &g) {
	U order; Graph G; unsigned kind = g.below(4); // 0: the hubs are eliminated first, which gives nodes with hundreds of upward arcs
	if (kind == 0) { unsigned n = 200 + g.below(350), k = 1 + g.below(4); uint64_t s = g.bits64(); G.n = n; for (unsigned x = k; x < n; ++x) for (unsigned h = 0; h < k; ++h) { if (pbt::splitmix(s) % 4) G.add(x, h, pbt::splitmix(s) % 1000); if (pbt::splitmix(s) % 4) G.add(h, x, pbt::splitmix(s) % 1000); } for (unsigned x = 0; x < n; ++x) order.push_back(x); g.note() << "dense hierarchy n=" << n << " hubs=" << k << " seed=" << s; g.label("dense hierarchy"); }
	else if (kind == 1) { G = draw_graph(g, 300, w_medium); order = draw_order(g, G.n); g.note() << "n=" << G.n << " m=" << G.m(); }
	else G = draw_wide_graph(g, &order, nullptr, 300, 4000);
	Cch cch(order, G.tail, G.head, [](const std::string &) {}, g.chance(1, 2)); U w = padded(G.weight); Metric m(cch, w); m.customize(); Query q(m);
	unsigned finite = many_terminals(g, G, q, many_path | many_pinned, 16, [](Query &, bool, const Terminals &, const U &, const U &) {});
	g.nontrivial(finite >= 3);
}

pbt::Check pbt::make_check() {
	return Check{"P09", "the history contains at least two completed queries on the same object (large: more than five positive finite distances)", {
		{"history_short", 150000, 3000000, [](Gen &g) { history(g, 8, 20); }},
		{"history_long", 12000, 250000, [](Gen &g) { history(g, 25, 100); }},
		{"replaced", 30000, 600000, replaced},
		{"large", 300, 6000, large},
		{"wide", 120, 3000, [](Gen &g) { huge(g, true); }, 300},
		{"huge", 6, 60, [](Gen &g) { huge(g, false); }, 300},
		{"many", 100, 2500, many, 300},
	}};
}
