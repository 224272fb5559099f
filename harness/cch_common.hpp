#pragma once
#include "ch_common.hpp"
#include <routingkit/customizable_contraction_hierarchy.h>
#include <memory>
#include <new>

namespace cchc {
using namespace chc;
using Cch = RoutingKit::CustomizableContractionHierarchy;
using Metric = RoutingKit::CustomizableContractionHierarchyMetric;
using Query = RoutingKit::CustomizableContractionHierarchyQuery;
using Parallel = RoutingKit::CustomizableContractionHierarchyParallelization;
using Partial = RoutingKit::CustomizableContractionHierarchyPartialCustomization;

// a weight vector that is never empty, because the metric takes the address of its first element
inline U padded(U w) { if (w.empty()) w.reserve(1); return w; }

inline Cch draw_cch(pbt::Gen &g, const Graph &G, std::string *how = nullptr) {
	U order = draw_order(g, G.n);
	bool filter = g.chance(1, 2);
	unsigned log = g.below(3);
	std::string h = "order" + pbt::show(order) + (filter ? " filtered" : "");
	if (how) *how = h;
	g.label(filter ? "cch:filtered" : "cch:unfiltered");
	if (!filter && log == 0) return Cch(order, G.tail, G.head);
	if (log == 1) return Cch(order, G.tail, G.head, std::function<void(const std::string &)>(), filter);
	return Cch(order, G.tail, G.head, [](const std::string &) {}, filter);
}

// a metric with the weights of G (kept alive by the caller), customized sequentially
inline void check_cch_query(const Graph &G, const U &weight, Query &q, const Terminals &S, const Terminals &T, unsigned want, const std::string &what, unsigned getter_order = 0) {
	U np, ap; unsigned us, ut, d;
	switch (getter_order % 3) {
	case 0: d = q.get_distance(); np = q.get_node_path(); ap = q.get_arc_path(); us = q.get_used_source(); ut = q.get_used_target(); break;
	case 1: us = q.get_used_source(); ap = q.get_arc_path(); np = q.get_node_path(); d = q.get_distance(); ut = q.get_used_target(); break;
	default: np = q.get_node_path(); ut = q.get_used_target(); ap = q.get_arc_path(); us = q.get_used_source(); d = q.get_distance(); REQUIRE_EQ(q.get_node_path(), np, what << ": repeated node path"); break;
	}
	REQUIRE_EQ(d, want, what << ": distance");
	check_path(G, weight, S, T, want, np, ap, us, ut, what);
}

// all pairs through pinned targets and a sample of pairs with paths
inline void check_metric(pbt::Gen &g, const Graph &G, const U &weight, const std::vector<U> &D, const Metric &m, const std::string &what, unsigned samples = 6) {
	Query q(m);
	if (G.n <= 10) {
		for (unsigned s = 0; s < G.n; ++s) for (unsigned t = 0; t < G.n; ++t) {
			unsigned d = q.reset().add_source(s).add_target(t).run().get_distance();
			REQUIRE_EQ(d, D[s][t], what << ": distance " << s << "->" << t);
		}
	} else {
		U all(G.n); std::iota(all.begin(), all.end(), 0u);
		q.pin_targets(all);
		for (unsigned s = 0; s < G.n; ++s) REQUIRE_EQ(q.reset_source().add_source(s).run_to_pinned_targets().get_distances_to_targets(), D[s], what << ": distances from " << s);
	}
	for (unsigned i = 0; i < samples && G.n; ++i) {
		unsigned s = g.below(G.n), t = g.below(G.n);
		q.reset().add_source(s).add_target(t).run();
		check_cch_query(G, weight, q, {{s, 0}}, {{t, 0}}, D[s][t], what + " pair " + std::to_string(s) + "->" + std::to_string(t), i);
	}
}
} // namespace cchc
