/*
Generated-input checks of the parts of dccrg that need no grid:
C01 cell id mapping, C02 Cartesian_Geometry and No_Geometry,
C03 Stretched_Cartesian_Geometry.
*/
#include "refmap.hpp"

#include "mpi.h"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_length.hpp"
#include "dccrg_mapping.hpp"
#include "dccrg_no_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
#include "dccrg_topology.hpp"

#include <memory>

using namespace vp;

static Stats stats;
static bool nontrivial_case;
static std::string describe;

static std::string str(const idx3& a) { return cat("(", a[0], " ", a[1], " ", a[2], ")"); }
static std::string str(const std::array<double, 3>& a) { return cat("(", a[0], " ", a[1], " ", a[2], ")"); }

/*
C01
*/

static idx3 gen_length(Cursor& c)
{
	const u64 kind = c.below(8);
	idx3 l;
	switch (kind) {
	case 0: // any small grid
		for (auto& x : l) x = 1 + c.below(5);
		break;
	case 1:
		for (auto& x : l) x = 1 + c.below(60);
		break;
	case 2: // thin
		for (auto& x : l) x = 1;
		l[c.below(3)] = 1 + c.below(1000000);
		break;
	case 3: // large
		for (auto& x : l) x = 1 + c.below(u64(1) << (1 + c.below(21)));
		break;
	case 4: { // as large as possible in one dimension for some level
		for (auto& x : l) x = 1;
		const u64 lvl = c.below(22);
		u128 s = 0, p = 1;
		for (u64 i = 0; i <= lvl; i++) { s += p; p *= 8; }
		const u64 limit = u64(u128(~u64(0)) / s);
		const u64 d = c.below(3);
		l[d] = limit - std::min(limit - 1, c.below(3));
		if (c.flag() && l[d] < ~u64(0) - 4) l[d] += c.below(4);
		break;
	}
	case 5: // powers of two
		for (auto& x : l) x = u64(1) << c.below(21);
		break;
	case 6: { // two large dimensions
		for (auto& x : l) x = 1 + c.below(3);
		const u64 d = c.below(3);
		l[d] = 1 + c.below(u64(1) << 32);
		l[(d + 1) % 3] = 1 + c.below(u64(1) << 29);
		break;
	}
	default:
		for (auto& x : l) x = 1 + c.below(3);
		break;
	}
	return l;
}

static void check_cell(const dccrg::Mapping& m, const RefMap& r, const Pos& c, Cursor& q)
{
	const u64 id = r.id(c);
	stats.checks++;
	REQUIRE(m.get_refinement_level(id) == c.lvl, "level of cell ", id, " is ", m.get_refinement_level(id), " should be ", c.lvl);
	REQUIRE(m.get_cell_length_in_indices(id) == r.len(c.lvl), "length in indices of cell ", id, " is ", m.get_cell_length_in_indices(id));
	const idx3 ind = r.indices(c);
	const auto got = m.get_indices(id);
	REQUIRE(got == ind, "indices of cell ", id, " are ", str(got), " should be ", str(ind));
	// every index within cell maps to it
	idx3 inside = ind, far = ind;
	for (int d = 0; d < 3; d++) {
		inside[d] += q.below(r.len(c.lvl));
		far[d] += r.len(c.lvl) - 1;
	}
	REQUIRE(m.get_cell_from_indices(inside, c.lvl) == id, "cell at ", str(inside), " level ", c.lvl, " is ", m.get_cell_from_indices(inside, c.lvl), " should be ", id);
	REQUIRE(m.get_cell_from_indices(far, c.lvl) == id, "cell at ", str(far), " level ", c.lvl, " is ", m.get_cell_from_indices(far, c.lvl), " should be ", id);
	// ancestors at every level
	for (int l = 0; l <= c.lvl; l++) {
		const u64 a = r.id(r.at(ind, l));
		REQUIRE(m.get_cell_from_indices(inside, l) == a, "ancestor of ", id, " at level ", l, " is ", m.get_cell_from_indices(inside, l), " should be ", a);
	}
	REQUIRE(m.get_level_0_parent(id) == r.id(r.at(ind, 0)), "level 0 parent of ", id, " is ", m.get_level_0_parent(id));
	const u64 parent = c.lvl == 0 ? id : r.id(r.parent(c));
	REQUIRE(m.get_parent(id) == parent, "parent of ", id, " is ", m.get_parent(id), " should be ", parent);
	// children
	const auto children = m.get_all_children(id);
	if (c.lvl < r.max) {
		const auto rc = r.children(c);
		for (int i = 0; i < 8; i++) {
			REQUIRE(children[i] == r.id(rc[i]), "child ", i, " of ", id, " is ", children[i], " should be ", r.id(rc[i]));
			REQUIRE(m.get_parent(children[i]) == id, "parent of child ", children[i], " of ", id, " is ", m.get_parent(children[i]));
		}
		const u64 child = m.get_child(id);
		REQUIRE(std::count(children.begin(), children.end(), child) == 1, "get_child of ", id, " returned ", child);
	} else {
		for (const auto ch : children) REQUIRE(ch == dccrg::error_cell, "cell ", id, " of maximum level has child ", ch);
		REQUIRE(m.get_child(id) == id, "get_child of ", id, " of maximum level returned ", m.get_child(id));
	}
	// siblings
	const auto sib = m.get_siblings(id);
	if (c.lvl == 0) {
		REQUIRE(std::count(sib.begin(), sib.end(), id) == 1 && std::count(sib.begin(), sib.end(), dccrg::error_cell) == 7,
			"wrong siblings for level 0 cell ", id);
	} else {
		std::set<u64> s(sib.begin(), sib.end()), e;
		for (const auto& x : r.children(r.parent(c))) e.insert(r.id(x));
		REQUIRE(s == e, "wrong siblings for cell ", id);
	}
}

static void check_invalid(const dccrg::Mapping& m, u64 id)
{
	stats.checks++;
	REQUIRE(m.get_refinement_level(id) == -1, "level of invalid cell ", id, " is ", m.get_refinement_level(id));
	REQUIRE(m.get_cell_length_in_indices(id) == dccrg::error_index, "length of invalid cell ", id, " is ", m.get_cell_length_in_indices(id));
	for (const auto i : m.get_indices(id)) REQUIRE(i == dccrg::error_index, "invalid cell ", id, " has indices");
	REQUIRE(m.get_parent(id) == dccrg::error_cell, "invalid cell ", id, " has parent ", m.get_parent(id));
	REQUIRE(m.get_child(id) == dccrg::error_cell, "invalid cell ", id, " has child ", m.get_child(id));
	REQUIRE(m.get_level_0_parent(id) == dccrg::error_cell, "invalid cell ", id, " has level 0 parent ", m.get_level_0_parent(id));
	for (const auto s : m.get_siblings(id)) REQUIRE(s == dccrg::error_cell, "invalid cell ", id, " has sibling ", s);
	for (const auto s : m.get_all_children(id)) REQUIRE(s == dccrg::error_cell, "invalid cell ", id, " has child ", s);
}

static void run_c01(const Case& k)
{
	Cursor c(k[0]);
	RefMap r;
	r.L = gen_length(c);
	const bool use_ctor = c.flag(), copied = c.below(4) == 1;
	const u128 cells = product(r.L);
	std::unique_ptr<dccrg::Mapping> mp;
	if (cells > u128(~u64(0))) {
		// too many cells of level 0, must be rejected without effect
		nontrivial_case = true;
		stats.label("too many level 0 cells");
		mp.reset(new dccrg::Mapping(idx3{{2, 3, 4}}));
		REQUIRE(!mp->set_length(r.L), "grid length ", str(r.L), " accepted even though cell ids do not fit into 64 bits");
		REQUIRE(mp->length.get() == (idx3{{2, 3, 4}}), "rejected set_length had an effect");
		r.L = {{2, 3, 4}};
	} else if (use_ctor) {
		mp.reset(new dccrg::Mapping(r.L));
	} else {
		mp.reset(new dccrg::Mapping());
		REQUIRE(mp->set_length(r.L), "grid length ", str(r.L), " rejected");
	}
	r.max = 0;
	REQUIRE(mp->length.get() == r.L, "grid length is ", str(mp->length.get()), " should be ", str(r.L));
	{
		const u64 z = c.below(8);
		if (z < 3) {
			idx3 bad = r.L;
			bad[z] = 0;
			REQUIRE(!mp->set_length(bad), "zero grid length accepted");
			REQUIRE(mp->length.get() == r.L, "rejected set_length had an effect");
		}
	}
	const int possible = ref_max_possible(r.L);
	REQUIRE(mp->get_maximum_possible_refinement_level() == possible,
		"maximum possible refinement level for length ", str(r.L), " is ", mp->get_maximum_possible_refinement_level(), " should be ", possible);
	// rejected levels have no effect
	const int too_large = possible + 1 + int(c.below(4));
	REQUIRE(!mp->set_maximum_refinement_level(too_large), "maximum refinement level ", too_large, " accepted for length ", str(r.L));
	REQUIRE(!mp->set_maximum_refinement_level(-1 - int(c.below(3))), "negative maximum refinement level accepted");
	REQUIRE(mp->get_maximum_refinement_level() == 0, "rejected set_maximum_refinement_level had an effect");
	switch (c.below(3)) {
	case 0: r.max = possible; break;
	case 1: r.max = int(c.below(u64(possible) + 1)); break;
	default: r.max = int(std::min<u64>(u64(possible), c.below(4))); break;
	}
	REQUIRE(mp->set_maximum_refinement_level(r.max), "maximum refinement level ", r.max, " rejected for length ", str(r.L));
	REQUIRE(mp->get_maximum_refinement_level() == r.max, "maximum refinement level is ", mp->get_maximum_refinement_level());

	// a length for which current maximum level isn't possible
	if (c.below(3) == 0) {
		dccrg::Mapping other(*mp);
		idx3 l = gen_length(c);
		if (c.flag()) for (int d = 0; d < 3; d++) l[size_t(d)] = 1 + l[size_t(d)] % 5;
		const bool fits = product(l) <= u128(~u64(0)) && ref_max_possible(l) >= r.max;
		stats.label(fits ? "length changed" : "length refused due to maximum level");
		REQUIRE(other.set_length(l) == fits, "length ", str(l), fits ? " refused" : " accepted", " with maximum refinement level ", r.max);
		RefMap o;
		o.L = fits ? l : r.L;
		o.max = r.max;
		REQUIRE(other.length.get() == o.L, "length after ", fits ? "accepted" : "refused", " change is ", str(other.length.get()));
		REQUIRE(other.get_maximum_refinement_level() == r.max, "changing length changed maximum refinement level");
		REQUIRE(other.get_last_cell() == u64(o.last()), "last cell after ", fits ? "accepted" : "refused", " change of length is ",
			other.get_last_cell(), " instead of ", u64(o.last()));
		REQUIRE(mp->length.get() == r.L, "changing a copy changed the original");
	}

	std::unique_ptr<dccrg::Mapping> copy;
	if (copied) {
		stats.label("copied mapping");
		copy.reset(new dccrg::Mapping(*mp));
		mp.reset(new dccrg::Mapping(idx3{{7, 1, 2}}));
	}
	const dccrg::Mapping& m = copied ? *copy : *mp;

	const u64 last = u64(r.last());
	REQUIRE(m.get_last_cell() == last, "last cell is ", m.get_last_cell(), " should be ", last);
	nontrivial_case = nontrivial_case || r.max > 0;
	if (r.max > 0) stats.label("refinable");
	if (r.max == possible) stats.label("maximum level at id limit");
	describe = cat("length ", str(r.L), " max level ", r.max, copied ? " copied" : "");

	// exhaustive for small grids
	if (last <= 4000) {
		stats.label("exhaustive");
		std::set<std::pair<int, idx3>> seen;
		for (u64 id = 1; id <= last; id++) {
			const int lvl = m.get_refinement_level(id);
			REQUIRE(lvl >= 0 && lvl <= r.max, "level of cell ", id, " is ", lvl);
			REQUIRE(seen.insert(std::make_pair(lvl, m.get_indices(id))).second, "cell ", id, " has same level and location as another cell");
			REQUIRE(r.pos(id).lvl == lvl && r.indices(r.pos(id)) == m.get_indices(id), "cell ", id, " has wrong level or location");
			REQUIRE(m.get_cell_from_indices(m.get_indices(id), lvl) == id, "cell ", id, " doesn't map back to itself");
		}
	}

	for (size_t i = 1; i < k.size(); i++) {
		Cursor q(k[i]);
		switch (q.below(5)) {
		case 0: case 1: {
			Pos p;
			p.lvl = int(q.below(u64(r.max) + 1));
			for (int d = 0; d < 3; d++) p.p[d] = q.below(r.dim(d, p.lvl));
			check_cell(m, r, p, q);
			break;
		}
		case 2: { // first and last ids of levels
			const int lvl = int(q.below(u64(r.max) + 1));
			u128 id = q.flag() ? r.before(lvl) + 1 : r.before(lvl + 1);
			const u64 delta = q.below(4);
			if (q.flag()) id += delta; else if (id > delta) id -= delta;
			if (id >= 1 && id <= r.last()) check_cell(m, r, r.pos(u64(id)), q);
			else if (id <= u128(~u64(0))) check_invalid(m, u64(id));
			break;
		}
		case 3: { // invalid ids
			u64 id = 0;
			const u64 how = q.below(4);
			if (how == 1 && last != ~u64(0)) id = last + 1 + q.below(std::min<u64>(~u64(0) - last, 1000000));
			if (how == 2 && last != ~u64(0)) id = ~u64(0);
			if (how == 3 && last != ~u64(0)) id = last + 1;
			check_invalid(m, id);
			break;
		}
		default: { // invalid indices or level
			idx3 ind;
			for (int d = 0; d < 3; d++) ind[d] = q.below(r.dim(d, r.max));
			int lvl = int(q.below(u64(r.max) + 1));
			const u64 how = q.below(5);
			if (how < 3) {
				const u64 limit = r.dim(int(how), r.max);
				const u64 far = q.below(4);
				ind[how] = far == 0 ? limit : far == 1 ? dccrg::error_index : limit + q.below(std::min<u64>(~u64(0) - limit, 1 << 20));
			} else if (how == 3) {
				lvl = -1 - int(q.below(3));
			} else {
				lvl = r.max + 1 + int(q.below(3));
			}
			stats.checks++;
			REQUIRE(m.get_cell_from_indices(ind, lvl) == dccrg::error_cell, "cell at ", str(ind), " of level ", lvl, " is ", m.get_cell_from_indices(ind, lvl), " should be error_cell");
			break;
		}
		}
	}
}

/*
C02, C03: all geometries against one reference in which
geometry is given by edges of level 0 cells in each dimension
*/
struct RefGeom {
	RefMap r;
	std::array<std::vector<double>, 3> edge;
	std::array<bool, 3> periodic;

	// location of given index (in units of finest index, fractions allowed)
	double at(int d, u64 i, double frac) const
	{
		const u64 n = u64(1) << r.max;
		u64 c = i / n;
		double f = (double(i % n) + frac) / double(n);
		if (c >= r.L[d]) { c = r.L[d] - 1; f = 1; }
		return edge[d][c] + f * (edge[d][c + 1] - edge[d][c]);
	}
	double start(int d) const { return edge[d].front(); }
	double end(int d) const { return edge[d].back(); }
	double scale(int d) const { return end(d) - start(d) + std::max(fabs(start(d)), fabs(end(d))); }
	double tol(int d) const { return 1e-11 * scale(d); }
};

static bool is_nan(const std::array<double, 3>& a) { return a[0] != a[0] && a[1] != a[1] && a[2] != a[2]; }

#define NEAR(a, b, d, ...) REQUIRE(fabs((a) - (b)) <= g.tol(d), __VA_ARGS__, ": ", a, " should be ", b)

template<class G> static std::array<double, 3> center_at(const G& geom, int lvl, const idx3& i) { return geom.get_center(lvl, i); }
static std::array<double, 3> center_at(const dccrg::Stretched_Cartesian_Geometry& geom, int lvl, const idx3& i) { return geom.get_center(i, lvl); }

template<class G> static void query_geometry(const G& geom, const RefGeom& g, const Line& line)
{
	const RefMap& r = g.r;
	Cursor q(line);
	const u64 kind = q.below(6);
	Pos p;
	p.lvl = int(q.below(u64(r.max) + 1));
	for (int d = 0; d < 3; d++) p.p[d] = q.below(r.dim(d, p.lvl));
	const u64 id = r.id(p), len = r.len(p.lvl);
	const idx3 ind = r.indices(p);
	stats.checks++;
	switch (kind) {
	case 0: { // extent of cell
		const auto mi = geom.get_min(id), ma = geom.get_max(id), ce = geom.get_center(id), le = geom.get_length(id);
		const auto ce2 = center_at(geom, p.lvl, ind);
		for (int d = 0; d < 3; d++) {
			const double lo = g.at(d, ind[d], 0), hi = g.at(d, ind[d] + len - 1, 1);
			NEAR(mi[d], lo, d, "minimum of cell ", id, " in dimension ", d);
			NEAR(ma[d], hi, d, "maximum of cell ", id, " in dimension ", d);
			NEAR(ce[d], (lo + hi) / 2, d, "center of cell ", id, " in dimension ", d);
			NEAR(le[d], hi - lo, d, "length of cell ", id, " in dimension ", d);
			NEAR(ce2[d], (lo + hi) / 2, d, "center at indices of cell ", id, " in dimension ", d);
		}
		break;
	}
	case 1: case 2: { // point within cell -> cell, optionally through periodicity
		std::array<double, 3> x, wrapped;
		idx3 fine;
		bool outside = false, any_wrap = false;
		std::array<bool, 3> out{{false, false, false}};
		for (int d = 0; d < 3; d++) {
			const u64 how = q.below(8);
			fine[d] = ind[d] + q.below(len);
			x[d] = g.at(d, fine[d], 0.1 + 0.8 * double(q.below(1001)) / 1000.0);
			if (how == 7 && ind[d] == 0) { // starting corner is inside of the grid
				fine[d] = 0;
				x[d] = geom.get_start()[d];
			}
			wrapped[d] = x[d];
			if (kind == 2 && q.below(2) == 1) {
				const double k = double(1 + q.below(3)) * (q.flag() ? 1 : -1);
				if (how != 7 || ind[d] != 0) {
					x[d] += k * (g.end(d) - g.start(d));
					out[d] = true;
					if (g.periodic[d]) any_wrap = true; else outside = true;
				}
			}
		}
		const auto real = geom.get_real_coordinate(x);
		const auto got = geom.get_indices(x);
		const u64 cell = geom.get_cell(p.lvl, x);
		for (int d = 0; d < 3; d++) {
			if (out[d] && !g.periodic[d]) {
				REQUIRE(real[d] != real[d], "real coordinate outside of non-periodic dimension ", d, " is ", real[d]);
				REQUIRE(got[d] == dccrg::error_index, "index of coordinate outside of non-periodic dimension ", d, " is ", got[d]);
			} else {
				if (!out[d]) REQUIRE(real[d] == x[d], "real coordinate in dimension ", d, " is ", real[d], " should be ", x[d]);
				NEAR(real[d], wrapped[d], d, "real coordinate in dimension ", d, " for ", x[d]);
				REQUIRE(got[d] == fine[d], "index of coordinate ", x[d], " in dimension ", d, " is ", got[d], " should be ", fine[d]);
			}
		}
		if (outside) {
			stats.label("point outside");
			REQUIRE(cell == dccrg::error_cell, "cell at ", str(x), " outside of the grid is ", cell);
		} else {
			if (any_wrap) { stats.label("point through periodic boundary"); nontrivial_case = true; }
			REQUIRE(cell == id, "cell of level ", p.lvl, " at ", str(x), " is ", cell, " should be ", id);
		}
		break;
	}
	case 3: { // adjacent cells share a face
		const int d = int(q.below(3));
		if (p.p[d] + 1 < r.dim(d, p.lvl)) {
			Pos n = p;
			n.p[d]++;
			NEAR(geom.get_max(id)[d], geom.get_min(r.id(n))[d], d, "cells ", id, " and ", r.id(n), " do not share a face in dimension ", d);
		}
		if (p.lvl < r.max) { // children tile their parent
			double v = 0;
			for (const auto& ch : r.children(p)) {
				const auto l = geom.get_length(r.id(ch));
				v += l[0] * l[1] * l[2];
			}
			const auto l = geom.get_length(id);
			REQUIRE(fabs(v - l[0] * l[1] * l[2]) <= 1e-9 * v, "children of ", id, " don't fill it");
		}
		break;
	}
	case 4: { // invalid cells and levels
		const u64 bad = q.flag() ? 0 : u64(r.last()) + 1 + q.below(1000);
		REQUIRE(is_nan(geom.get_center(bad)) && is_nan(geom.get_length(bad)) && is_nan(geom.get_min(bad)) && is_nan(geom.get_max(bad)),
			"invalid cell ", bad, " has a location: ", str(geom.get_center(bad)), " ", str(geom.get_length(bad)));
		const int lvl = q.flag() ? -1 - int(q.below(3)) : r.max + 1 + int(q.below(3));
		REQUIRE(geom.get_cell(lvl, geom.get_center(id)) == dccrg::error_cell, "cell of invalid level ", lvl, " exists");
		REQUIRE(is_nan(center_at(geom, lvl, ind)), "center for invalid level ", lvl, " exists");
		idx3 far = ind;
		const int d = int(q.below(3));
		far[d] = r.dim(d, r.max) + 1 + q.below(1000);
		REQUIRE(is_nan(center_at(geom, p.lvl, far)), "center at invalid indices ", str(far), " exists: ", str(center_at(geom, p.lvl, far)));
		break;
	}
	default: {
		const auto s = geom.get_start(), e = geom.get_end();
		for (int d = 0; d < 3; d++) {
			REQUIRE(s[d] == g.start(d), "start of grid is ", str(s));
			NEAR(e[d], g.end(d), d, "end of grid");
		}
		REQUIRE(geom.get_cell(p.lvl, geom.get_center(id)) == id, "cell at center of ", id, " is ", geom.get_cell(p.lvl, geom.get_center(id)));
		break;
	}
	}
}

static double gen_real(Cursor& c)
{
	static const double base[] = {0, 1, -1, 0.1, -0.3, 2.5, 1e3, -1e-3, 7.25, 1e6, 3.3e-5};
	double v = base[c.below(sizeof base / sizeof base[0])];
	v += double(c.below(2001)) / 1000.0 - 1;
	return v;
}

static double gen_size(Cursor& c)
{
	static const double base[] = {1, 0.1, 0.5, 3, 1e3, 1.0 / 3, 7e-3, 2.25, 6.4e6};
	return base[c.below(sizeof base / sizeof base[0])] * (1 + double(c.below(1000)) / 500.0);
}

static void run_geom(const Case& k, int which_in)
{
	Cursor c(k[0]);
	RefGeom g;
	const int which = which_in == 3 ? 2 : int(c.below(2));
	for (auto& x : g.r.L) x = 1 + c.below(c.below(3) == 2 ? 40 : 6);
	g.r.max = int(c.below(c.below(4) == 3 ? 9 : 4));
	dccrg::Grid_Topology topology;
	for (int d = 0; d < 3; d++) {
		g.periodic[d] = c.flag();
		topology.set_periodicity(size_t(d), g.periodic[d]);
		REQUIRE(topology.is_periodic(size_t(d)) == g.periodic[d], "periodicity of dimension ", d, " wrong");
	}
	dccrg::Mapping m;
	m.set_length(g.r.L);
	REQUIRE(m.set_maximum_refinement_level(g.r.max), "level ", g.r.max, " rejected");
	nontrivial_case = g.r.max > 0;
	describe = cat(which == 0 ? "no" : which == 1 ? "cartesian" : "stretched", " geometry, length ", str(g.r.L),
		" max level ", g.r.max, " periodic ", g.periodic[0], g.periodic[1], g.periodic[2]);

	if (which == 0) {
		stats.label("no geometry");
		for (int d = 0; d < 3; d++) for (u64 i = 0; i <= g.r.L[d]; i++) g.edge[d].push_back(double(i));
		const dccrg::No_Geometry geom(m.length, m, topology);
		REQUIRE((geom.get_level_0_cell_length() == std::array<double, 3>{{1, 1, 1}}), "length of cells of level 0");
		for (size_t i = 1; i < k.size(); i++) query_geometry(geom, g, k[i]);
		return;
	}
	if (which == 1) {
		stats.label("cartesian geometry");
		dccrg::Cartesian_Geometry::Parameters par;
		for (int d = 0; d < 3; d++) {
			par.level_0_cell_length[d] = gen_size(c);
			// keep rounding well below size of smallest cells
			par.start[d] = gen_real(c) * par.level_0_cell_length[d];
			for (u64 i = 0; i <= g.r.L[d]; i++) g.edge[d].push_back(par.start[d] + double(i) * par.level_0_cell_length[d]);
			if (fabs(par.start[d]) > 1e4 * par.level_0_cell_length[d]) {
				par.start[d] = 0;
				g.edge[d].clear();
				for (u64 i = 0; i <= g.r.L[d]; i++) g.edge[d].push_back(double(i) * par.level_0_cell_length[d]);
			}
		}
		dccrg::Cartesian_Geometry geom(m.length, m, topology);
		REQUIRE(geom.set(par), "valid parameters rejected");
		auto bad = par;
		bad.level_0_cell_length[c.below(3)] = c.flag() ? 0 : -1;
		bad.start[0] += 1;
		REQUIRE(!geom.set(bad), "invalid cell length accepted");
		REQUIRE(geom.get_level_0_cell_length() == par.level_0_cell_length, "length of cells of level 0");
		REQUIRE(geom.get().start == par.start && geom.get().level_0_cell_length == par.level_0_cell_length, "rejected set had an effect");
		if (c.flag()) {
			dccrg::Cartesian_Geometry other(m.length, m, topology);
			REQUIRE(other.set(geom), "valid geometry rejected");
			for (size_t i = 1; i < k.size(); i++) query_geometry(other, g, k[i]);
		} else {
			for (size_t i = 1; i < k.size(); i++) query_geometry(geom, g, k[i]);
		}
		return;
	}
	stats.label("stretched geometry");
	dccrg::Stretched_Cartesian_Geometry geom(m.length, m, topology);
	const u64 how = c.below(4);
	if (how == 0) {
		// default is unit cells from origin
		for (int d = 0; d < 3; d++) for (u64 i = 0; i <= g.r.L[d]; i++) g.edge[d].push_back(double(i));
	} else if (how == 1) {
		dccrg::Cartesian_Geometry::Parameters par;
		for (int d = 0; d < 3; d++) {
			par.level_0_cell_length[d] = gen_size(c);
			par.start[d] = (double(c.below(2001)) / 100.0 - 10) * par.level_0_cell_length[d];
			for (u64 i = 0; i <= g.r.L[d]; i++) g.edge[d].push_back(par.start[d] + double(i) * par.level_0_cell_length[d]);
		}
		dccrg::Cartesian_Geometry cart(m.length, m, topology);
		cart.set(par);
		REQUIRE(geom.set(cart), "cartesian geometry rejected");
	} else {
		dccrg::Stretched_Cartesian_Geometry::Parameters par;
		for (int d = 0; d < 3; d++) {
			const double size = gen_size(c);
			double x = (double(c.below(2001)) / 100.0 - 10) * size;
			for (u64 i = 0; i <= g.r.L[d]; i++) {
				g.edge[d].push_back(x);
				x += size * (0.05 + double(c.below(1000)) / 200.0);
			}
			par.coordinates[d] = g.edge[d];
		}
		REQUIRE(geom.set(par), "valid coordinates rejected");
		auto bad = par;
		const int d = int(c.below(3));
		const u64 i = c.below(g.r.L[d]);
		switch (c.below(4)) {
		case 0: bad.coordinates[d][i + 1] = bad.coordinates[d][i]; break;
		case 1: bad.coordinates[d].pop_back(); break;
		case 2: bad.coordinates[d].push_back(bad.coordinates[d].back() + 1); break;
		default: std::swap(bad.coordinates[d][i], bad.coordinates[d][i + 1]); break;
		}
		REQUIRE(!geom.set(bad), "invalid coordinates accepted");
		REQUIRE(geom.get().coordinates == par.coordinates, "rejected set had an effect");
	}
	if (c.flag()) {
		dccrg::Stretched_Cartesian_Geometry other(m.length, m, topology);
		REQUIRE(other.set(geom), "valid geometry rejected");
		for (size_t i = 1; i < k.size(); i++) query_geometry(other, g, k[i]);
	} else {
		for (size_t i = 1; i < k.size(); i++) query_geometry(geom, g, k[i]);
	}
}

static Case generate(const std::string& prop, u64 seed, u64 index)
{
	Rng r(mix(mix(seed, hash_text(prop)), index));
	Case k(1);
	for (int i = 0; i < 400; i++) k[0].push_back(r.next() >> 16);
	const u64 n = 5 + r.below(30);
	for (u64 i = 0; i < n; i++) {
		Line l;
		for (int j = 0; j < 18; j++) l.push_back(r.next() >> 16);
		k.push_back(l);
	}
	return k;
}

static void run_case(const std::string& prop, const Case& k)
{
	if (k.empty()) return;
	describe.clear();
	nontrivial_case = false;
	if (prop == "C01") run_c01(k);
	else if (prop == "C02") run_geom(k, 2);
	else if (prop == "C03") run_geom(k, 3);
	else { std::cerr << "unknown property " << prop << std::endl; _exit(2); }
}

int main(int argc, char** argv)
{
	Options o(argc, argv);
	// library reports rejected arguments to cerr, which is not of interest here
	std::cerr.rdbuf(nullptr);
	signal(SIGALRM, on_alarm);
	if (!o.replay.empty()) {
		alarm(unsigned(o.case_timeout));
		try {
			run_case(o.prop, from_file(o.replay));
		} catch (const Violation& v) {
			printf("FAILED %s\n", v.what());
			printf("CASE %s\n", describe.c_str());
			return exit_violation;
		}
		printf("PASSED %s\n", describe.c_str());
		return 0;
	}
	Current cur;
	cur.open(o.out + "/current.txt");
	const double begin = now();
	int ret = 0;
	for (u64 n = 0, i = o.start; n < o.count; n++, i += o.step) {
		if (now() - begin > o.seconds) break;
		const Case k = generate(o.prop, o.seed, i);
		const std::string text = to_text(k);
		cur.set(text);
		if (n % 256 == 0) alarm(unsigned(o.case_timeout));
		try {
			run_case(o.prop, k);
		} catch (const Violation& v) {
			std::ofstream f(o.out + "/fail.txt");
			f << "# " << v.what() << "\n" << text;
			ret = exit_violation;
		}
		stats.evaluations++;
		if (nontrivial_case && stats.seen.insert(hash_text(text)).second) stats.nontrivial++;
		if (stats.samples.size() < 3 && nontrivial_case && i % 7 == 0)
			stats.samples.push_back(cat("case ", i, ": ", describe, ", ", k.size() - 1, " queries"));
		if (ret) break;
	}
	stats.write(o.out + "/stats.json", now() - begin);
	return ret;
}
