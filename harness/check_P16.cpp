// P16: geographic distance, nearest neighbour and radius queries against brute force.
#include "pbt.hpp"
#include <routingkit/geo_dist.h>
#include <routingkit/geo_position_to_node.h>
#include <cmath>
#include <map>
using namespace RoutingKit;
static const unsigned INVALID = 4294967295u;
static const long double PI = 3.14159265358979323846264338327950288L, R = 6371000.785L;

static long double ref_dist(long double la, long double lo, long double lb, long double lp) {
	const long double r = PI / 180; la *= r; lo *= r; lb *= r; lp *= r;
	long double a = std::sin((la - lb) / 2), b = std::sin((lo - lp) / 2), h = a * a + std::cos(la) * std::cos(lb) * b * b;
	if (h > 1) h = 1;
	return 2 * R * std::atan2(std::sqrt(h), std::sqrt(1 - h));
}
static double snap(double x, double lo, double hi) { return std::min(std::max(x, lo), hi); }

static void geo(pbt::Gen &g) {
	auto coord = [&](int lim) -> double {
		switch (g.below(5)) { case 0: { static const std::vector<double> e = {0, 1, -1, 0.5}; return g.pick(e) * lim; } case 1: return g.irange(-lim, lim); case 2: return g.irange(-lim * 1000000ll, lim * 1000000ll) * 1e-6; case 3: return (float)(g.irange(-lim * 10000000ll, lim * 10000000ll) * 1e-7); default: return g.irange(-lim * 1000ll, lim * 1000ll) * 1e-3; }
	};
	double la = coord(90), lo = coord(180), lb, lp; unsigned rel = g.below(5);
	switch (rel) {
	case 0: lb = la; lp = lo; break;
	case 1: { double s = std::pow(10.0, -(double)g.range(1, 9)); lb = la + s * g.irange(-9, 9); lp = lo + s * g.irange(-9, 9); break; }
	case 2: { lb = -la; lp = lo > 0 ? lo - 180 : lo + 180; if (g.chance(1, 2)) lp += 1e-7 * g.irange(-9, 9); break; }
	case 3: lb = la; lp = -lo; break;
	default: lb = coord(90); lp = coord(180);
	}
	lb = snap(lb, -90, 90); lp = snap(lp, -180, 180);
	g.note().precision(17); g.note() << "(" << la << "," << lo << ") (" << lb << "," << lp << ")";
	double d = geo_dist(la, lo, lb, lp), e = geo_dist(lb, lp, la, lo);
	bool finite = d >= 0 && d < 1e9 && e >= 0 && e < 1e9;
	REQUIRE(finite, "geo_dist is not a finite non-negative number: " << d << " / " << e);
	long double t = ref_dist(la, lo, lb, lp);
	REQUIRE(std::fabs((double)(d - t)) <= 0.5 + 1e-9 * (double)t, "geo_dist is " << d << ", the great circle distance is " << (double)t);
	REQUIRE(std::fabs(d - e) <= 0.5, "geo_dist is not symmetric: " << d << " / " << e);
	g.nontrivial(rel != 0 || true); g.label(rel == 0 ? "identical" : rel == 1 ? "close" : rel == 2 ? "antipodal" : rel == 3 ? "mirrored" : "any");
}

static void tree(pbt::Gen &g, bool huge) {
	unsigned n = huge ? (g.chance(1, 4) ? 70000 + g.below(200000) : 65530 + g.below(4000)) : g.chance(1, 4) ? g.below(12) : g.below(g.thorough() ? 400 : 150);
	double clat = g.irange(-90, 90), clon = g.irange(-180, 180); unsigned scale = g.below(7); // degrees: 10^-4 .. world
	uint64_t seed = g.bits64(); bool raw = n <= 12; unsigned clusters = 1 + g.below(4); bool grid = g.chance(1, 5);
	std::vector<float> lat, lon; std::vector<std::pair<double, double>> centre;
	for (unsigned c = 0; c < clusters; ++c) {
		switch (g.below(4)) { case 0: centre.push_back({clat, clon}); break; case 1: centre.push_back({-clat, clon > 0 ? clon - 180 : clon + 180}); break; /* antipode */
		case 2: centre.push_back({(double)g.irange(-90, 90), g.chance(1, 2) ? 180.0 : -180.0}); break; default: centre.push_back({(double)g.irange(-90, 90), (double)g.irange(-180, 180)}); }
	}
	double ext = scale == 6 ? 180 : std::pow(10.0, (int)scale - 4);
	g.note() << "n=" << n << " extent " << ext << " deg, clusters " << clusters << (grid ? " grid" : "");
	auto rnd = [&]() -> double { uint64_t r = raw ? g.below(2001) : pbt::splitmix(seed) % 2001; return ((double)r - 1000) / 1000; };
	auto wrap = [](double x) { while (x > 180) x -= 360; while (x < -180) x += 360; return x; };
	auto pt = [&](float &la, float &lo) {
		auto &c = centre[raw ? g.below(clusters) : pbt::splitmix(seed) % clusters]; double x = rnd(), y = rnd();
		if (grid) { x = std::round(x * 5) / 5; y = std::round(y * 5) / 5; }
		la = (float)snap(c.first + x * ext, -90, 90); lo = (float)wrap(c.second + y * ext);
	};
	for (unsigned i = 0; i < n; ++i) {
		float a, b; pt(a, b);
		if (i && pbt::splitmix(seed) % 16 == 0) { unsigned j = pbt::splitmix(seed) % i; a = lat[j]; b = lon[j]; }
		lat.push_back(a); lon.push_back(b);
	}
	GeoPositionToNode idx(lat, lon);
	if (g.chance(1, 4)) { GeoPositionToNode c; REQUIRE_EQ(c.point_count(), 0u, "point_count"); REQUIRE_EQ(c.find_nearest_neighbor_within_radius(0, 0, 1000).id, INVALID, "neighbour in an empty index"); c = idx; idx = GeoPositionToNode(c); }
	REQUIRE_EQ(idx.point_count(), n, "point_count");
	unsigned hits = 0, partial = 0;
	for (unsigned k = 0; k < (huge ? 24u : 6u); ++k) {
		float qa, qo; unsigned how = g.below(3);
		if (how == 0 && n) { unsigned i = g.below(n); qa = lat[i]; qo = lon[i]; } else if (how == 1) pt(qa, qo); else { qa = g.irange(-90, 90); qo = g.irange(-180, 180); }
		std::vector<double> d(n); double far = 0, best = 1e30;
		for (unsigned i = 0; i < n; ++i) { d[i] = (double)ref_dist(qa, qo, lat[i], lon[i]); far = std::max(far, d[i]); best = std::min(best, d[i]); }
		// resolution of the distances: cancellation in the arc cosine and single precision of the result
		double tol = 1.0 + 1e-6 * far;
		float radius; switch (g.below(6)) { case 0: radius = 0; break; case 1: radius = 1e9f; break; case 2: radius = n ? (float)d[g.below(n)] : 5; break; case 3: radius = (float)(std::pow(10.0, (double)g.range(0, 7)) * g.range(1, 9)); break; case 4: radius = n ? (float)(best * 1.01 + 2 * tol) : 1; break; default: radius = (float)(ext * 1000.0 * g.range(1, 100)); }
		g.note() << "; query (" << qa << "," << qo << ") radius " << radius;
		auto r = idx.find_nearest_neighbor_within_radius(qa, qo, radius);
		if (r.id == INVALID) REQUIRE(n == 0 || best > radius - tol, "no neighbour found within " << radius << " m although a point is " << best << " m away (tolerance " << tol << ")");
		else {
			REQUIRE(r.id < n, "id out of range " << r.id); ++hits;
			REQUIRE(std::fabs(r.distance - d[r.id]) <= tol, "point " << r.id << " reported at " << r.distance << " m, is at " << d[r.id]);
			REQUIRE(d[r.id] <= radius + tol, "point " << r.id << " at " << d[r.id] << " m is outside of the radius " << radius);
			REQUIRE(d[r.id] <= best + tol, "point " << r.id << " at " << d[r.id] << " m returned although another is " << best << " m away (tolerance " << tol << ")");
		}
		auto all = idx.find_all_nodes_within_radius(qa, qo, radius);
		std::vector<char> seen(n);
		for (auto &x : all) {
			REQUIRE(x.id < n && !seen[x.id], "id " << x.id << " is out of range or reported twice"); seen[x.id] = 1;
			REQUIRE(std::fabs(x.distance - d[x.id]) <= tol, "point " << x.id << " reported at " << x.distance << " m, is at " << d[x.id]);
			REQUIRE(d[x.id] <= radius + tol, "point " << x.id << " at " << d[x.id] << " m is outside of the radius " << radius);
		}
		for (unsigned i = 0; i < n; ++i) if (!seen[i]) REQUIRE(d[i] > radius - tol, "point " << i << " at " << d[i] << " m missing in the result for radius " << radius << " (tolerance " << tol << ")");
		partial += !all.empty() && all.size() < n;
		if (n == 1 && r.id != INVALID) { // the radius is inclusive: a point is within its own distance
			REQUIRE_EQ(idx.find_nearest_neighbor_within_radius(qa, qo, r.distance).id, r.id, "neighbour within a radius that equals its distance " << r.distance); REQUIRE_EQ(idx.find_all_nodes_within_radius(qa, qo, r.distance).size(), (size_t)1, "nodes within a radius that equals their distance " << r.distance); }
	}
	g.nontrivial(n > 16 && hits && partial);
	g.label(n > 16 ? "inner nodes" : "leaf only");
}

pbt::Check pbt::make_check() {
	return {"P16", "index: more than 16 points (several tree levels), a neighbour found and a radius query returning some but not all points; geo: every case",
		{{"geo", 200000, 5000000, geo}, {"index", 20000, 600000, [](pbt::Gen &g) { tree(g, false); }}, {"index_huge", 16, 300, [](pbt::Gen &g) { tree(g, true); }, 300}}};
}
