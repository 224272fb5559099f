// Reference model of turn restrictions: OSM relation -> restriction -> forbidden pairs of arcs.
#pragma once
#include "osm_world.hpp"
namespace osmw {
struct Restriction { bool mandatory; int direction; uint64_t from, via, to; bool has_via; }; // direction: left, right, straight, u-turn
static const char *const DIRNAME[] = {"left_turn", "right_turn", "straight_on", "u_turn"};

// ---------------------------------------------------------------- reference: restriction -> forbidden turns
inline double angle(Pos a, Pos b) { return std::atan2((double)b.first - (double)a.first, (double)b.second - (double)a.second); }
struct Verdict { bool certain = true; std::vector<std::pair<unsigned, unsigned>> turns; std::string how; };

struct Index { std::vector<std::vector<unsigned>> out, of_way; Index(const Model &m) : out(m.route_ids.size()), of_way(m.way_ids.size()) { for (unsigned a = 0; a < m.arcs.size(); ++a) { out[m.arcs[a].tail].push_back(a); of_way[m.arcs[a].way].push_back(a); } } };
inline Verdict forbidden(const Model &m, const Index &ix, const Restriction &r) {
	Verdict v; unsigned from = m.way(r.from), to = m.way(r.to), via = NONE; v.how = "ignored: not in the graph";
	if (from == NONE || to == NONE) return v;
	if (r.has_via) { via = m.node(r.via); if (via == NONE) return v; }
	else if (from == to && r.mandatory) { // stay on the way wherever it can be continued
		for (unsigned i : ix.of_way[from]) { unsigned n = m.arcs[i].head; bool goes_on = false; for (auto o : ix.out[n]) goes_on |= m.arcs[o].way == from; if (goes_on) for (auto o : ix.out[n]) if (m.arcs[o].way != from) v.turns.push_back({i, o}); }
		v.how = "stay on the way"; return v;
	} else {
		std::set<unsigned> c; for (auto a : ix.of_way[from]) for (auto b : ix.of_way[to]) if (m.arcs[b].tail == m.arcs[a].head) c.insert(m.arcs[a].head);
		if (c.size() != 1) { v.how = c.empty() ? "ignored: ways do not meet" : "ignored: ways meet several times"; return v; }
		via = *c.begin();
	}
	std::vector<unsigned> F, T; for (auto a : ix.of_way[from]) if (m.arcs[a].head == via) F.push_back(a); for (auto a : ix.of_way[to]) if (m.arcs[a].tail == via) T.push_back(a);
	if (F.empty() || T.empty()) { v.how = "ignored: no such turn"; return v; }
	unsigned f = F[0], t = T[0]; v.how = r.has_via ? "unique" : "unique, via derived";
	if (F.size() > 1 || T.size() > 1) {
		unsigned matches = 0; const double pi = 3.14159265358979323846; static const double eps = 1e-3; v.how = r.has_via ? "by direction" : "by direction, via derived";
		for (auto a : F) for (auto b : T) {
			Pos p = m.arcs[a].geo.empty() ? m.node_pos[m.arcs[a].tail] : m.arcs[a].geo.back(), c = m.node_pos[via], q = m.arcs[b].geo.empty() ? m.node_pos[m.arcs[b].head] : m.arcs[b].geo.front();
			if (p == c || q == c) { v.certain = false; return v; } // no direction
			double d = angle(c, q) - angle(p, c); while (d < 0) d += 2 * pi; while (d >= 2 * pi) d -= 2 * pi;
			auto in = [&](double lo, double hi) { if (std::fabs(d - lo) < eps || std::fabs(d - hi) < eps) v.certain = false; return lo < d && d < hi; };
			bool ok = false; switch (r.direction) { case 0: ok = in(pi / 4, 3 * pi / 4); break; case 1: ok = in(5 * pi / 4, 7 * pi / 4); break; case 2: ok = in(-1, pi / 3) | in(5 * pi / 3, 7); break; default: ok = in(2 * pi / 3, 4 * pi / 3); }
			if (ok) { ++matches; f = a; t = b; }
		}
		if (matches != 1) { v.how = matches ? "ignored: several turns in this direction" : "ignored: no turn in this direction"; return v; }
	}
	if (!r.mandatory) v.turns.push_back({f, t}); else for (auto a : ix.out[via]) if (a != t) v.turns.push_back({f, a});
	return v;
}

// ---------------------------------------------------------------- reference: relation -> restrictions
inline std::vector<Restriction> decode_relation(const Relation &r) {
	std::vector<Restriction> out; const std::string *s = tag(r.tags, "restriction"); if (!s) return out; bool mandatory; std::string d;
	if (s->compare(0, 5, "only_") == 0) { mandatory = true; d = s->substr(5); } else if (s->compare(0, 3, "no_") == 0) { mandatory = false; d = s->substr(3); } else return out;
	int dir = -1; for (int i = 0; i < 4; ++i) if (d == DIRNAME[i]) dir = i;
	if (dir < 0) return out;
	std::vector<uint64_t> from, to; unsigned vias = 0; bool via_ok = true; uint64_t via = ~0ull;
	for (auto &m : r.members) { if (m.role == "via") { ++vias; via = m.id; via_ok &= m.type == 0; } else if (m.role == "from" && m.type == 1) from.push_back(m.id); else if (m.role == "to" && m.type == 1) to.push_back(m.id); }
	if (vias > 1 || !via_ok || from.empty() || to.empty() || (mandatory && (from.size() > 1 || to.size() > 1))) return out;
	for (auto f : from) for (auto t : to) out.push_back({mandatory, dir, f, via, t, vias == 1});
	return out;
}
inline Relation draw_relation(pbt::Gen &g, uint64_t id, const std::vector<uint64_t> &ways, const std::vector<uint64_t> &nodes) {
	Relation r; r.id = id; auto way = [&] { return ways.empty() || g.chance(1, 12) ? g.below(g.chance(1, 2) ? 300 : 1ull << 40) : g.pick(ways); }; auto node = [&] { return nodes.empty() || g.chance(1, 12) ? g.below(g.chance(1, 2) ? 300 : 1ull << 40) : g.pick(nodes); };
	static const std::vector<std::string> odd = {"no_entry", "only_", "no_left_turns", "left_turn", "", "no", "only_left", "No_left_turn", "no_exit", "only_no_left_turn", "onlyleft_turn"};
	std::string v = g.chance(1, 8) ? g.pick(odd) : (g.chance(1, 2) ? "no_" : "only_") + std::string(DIRNAME[g.below(4)]);
	if (!g.chance(1, 12)) r.tags.push_back({"restriction", v}); if (g.chance(1, 2)) r.tags.push_back({"type", "restriction"}); if (g.chance(1, 8)) r.tags.push_back({"restriction:hgv", "no_u_turn"});
	auto type = [&](int t) { return g.chance(1, 12) ? (int)g.below(3) : t; };
	unsigned nf = g.chance(1, 6) ? g.below(4) : 1, nt = g.chance(1, 6) ? g.below(4) : 1, nv = g.chance(1, 4) ? g.below(3) : 1;
	for (unsigned i = 0; i < nf; ++i) r.members.push_back({type(1), way(), "from"});
	for (unsigned i = 0; i < nv; ++i) r.members.push_back({type(0), node(), "via"});
	for (unsigned i = 0; i < nt; ++i) r.members.push_back({type(1), way(), "to"});
	static const std::vector<std::string> roles = {"location_hint", "", "From", "fromto", "intersection", "viaduct"};
	while (g.chance(1, 6)) r.members.push_back({(int)g.below(3), g.chance(1, 2) ? way() : node(), g.pick(roles)});
	for (size_t i = r.members.size(); i > 1 && g.chance(2, 3); --i) std::swap(r.members[i - 1], r.members[g.below(i)]);
	return r;
}
inline std::string str(const Relation &r) { std::ostringstream o; o << " r" << r.id << "{"; for (auto &t : r.tags) o << t.first << "=" << t.second << " "; for (auto &m : r.members) o << "(" << m.role << " " << "nwr"[m.type] << m.id << ")"; o << "}"; return o.str(); }

} // namespace osmw
