/*
Creates a grid by generated sequences of calls that set its parameters.
*/
#ifndef VP_SETUP_HPP
#define VP_SETUP_HPP
#include "checks.hpp"

namespace vp {

template<class F> bool throws_invalid(F f)
{
	try {
		f();
	} catch (const std::invalid_argument&) {
		return true;
	}
	return false;
}

template<class Grid, class Geom> struct Setup {
	typedef Engine<Grid, Geom> E;
	E& e;
	Grid& g;
	Rng r;
	// parameters set so far
	idx3 L{{1, 1, 1}};
	bool length_set = false;
	int max = 0;
	Setup(E& given, Grid& grid, u64 seed) : e(given), g(grid), r(seed) {}

	void check_parameters() const
	{
		REQUIRE(g.length.get() == L, "length of grid is ", g.length.get()[0], "x", g.length.get()[1], "x", g.length.get()[2],
			" instead of ", L[0], "x", L[1], "x", L[2]);
		REQUIRE(g.get_maximum_refinement_level() == max, "maximum refinement level is ", g.get_maximum_refinement_level(), " instead of ", max);
		REQUIRE(g.get_mapping_initialized() == length_set, "get_mapping_initialized() is ", g.get_mapping_initialized());
		RefMap m;
		m.L = L;
		m.max = max;
		REQUIRE(g.mapping.get_last_cell() == u64(m.last()), "last cell is ", g.mapping.get_last_cell(), " instead of ", u64(m.last()));
		stats.checks++;
	}
	void try_length(const idx3& l)
	{
		bool fits = !length_set;
		for (const u64 x : l) if (x == 0) fits = false;
		if (fits) {
			const u128 plane = u128(l[0]) * l[1]; // less than 2^128
			const u128 limit = u128(~u64(0));
			if (plane > limit || plane * l[2] > limit) fits = false;
			else fits = ref_max_possible(l) >= max;
		}
		const bool refused = throws_invalid([&]() { g.set_initial_length(l); });
		REQUIRE(refused == !fits, "initial length ", l[0], "x", l[1], "x", l[2], refused ? " refused" : " accepted",
			" with maximum refinement level ", max, length_set ? ", length had been set already" : "");
		if (fits) {
			L = l;
			length_set = true;
		} else stats.label("refused lengths");
		check_parameters();
	}
	void try_max(int m)
	{
		const int possible = ref_max_possible(L);
		const bool refused = throws_invalid([&]() { g.set_maximum_refinement_level(m); });
		REQUIRE(refused == (m > possible), "maximum refinement level ", m, refused ? " refused" : " accepted", " when ", possible, " is possible");
		if (m < 0) max = possible;
		else if (m <= possible) max = m;
		else stats.label("refused levels");
		check_parameters();
	}
	void try_initialize()
	{
		if (length_set) return;
		REQUIRE(throws_invalid([&]() { g.initialize(e.comm); }), "initialize succeeded without length");
		REQUIRE(!g.get_initialized(), "grid is initialized after a failure");
		check_parameters();
		stats.label("refused initializations");
	}

	void run()
	{
		const Config& cfg = e.cfg;
		REQUIRE(!g.get_initialized() && !g.get_mapping_initialized(), "new grid is initialized already");
		// anything
		const u64 n = r.below(7);
		for (u64 i = 0; i < n; i++) {
			switch (r.below(7)) {
			case 0: try_length({{r.below(2), 1 + r.below(3), r.below(2)}}); break;
			case 1: {
				const u64 x = 20 + r.below(40), y = r.below(64), z = 1 + r.below(3);
				// a stretched geometry has this many coordinates
				if (x + y < 64 && max == 0) try_length({{1 + x, 1 + y, z}});
				else if (x + y >= 64 || max >= 20) try_length({{u64(1) << x, u64(1) << y, z}});
				break;
			}
			case 2: try_max(int(r.below(26)) - 1); break;
			case 3: try_initialize(); break;
			case 4: g.set_periodic(r.below(2), r.below(2), r.below(2)); break;
			case 5: g.set_neighborhood_length(unsigned(r.below(5))); break;
			case 6: g.set_load_balancing_method(methods()[r.below(methods().size())]); break;
			}
			// this one can't be changed any more
			if (length_set) break;
		}
		const bool other_length = length_set;
		if (other_length) {
			try_length(cfg.L); // refused
			return;
		}
		// wanted values in any order
		std::vector<int> todo{0, 1, 2, 3, 4};
		for (size_t i = todo.size() - 1; i > 0; i--) std::swap(todo[i], todo[r.below(i + 1)]);
		bool max_set = false;
		for (const int t : todo) switch (t) {
		case 0:
			if (max > ref_max_possible(cfg.L)) {
				try_length(cfg.L); // refused
				try_max(cfg.max);
			}
			try_length(cfg.L);
			if (max_set && max != cfg.max) try_max(cfg.max);
			break;
		case 1:
			try_max(length_set && cfg.max == ref_max_possible(cfg.L) && r.chance(60) ? -1 - int(r.below(3)) : cfg.max);
			max_set = true;
			break;
		case 2: g.set_periodic(cfg.per[0], cfg.per[1], cfg.per[2]); break;
		case 3: g.set_neighborhood_length(cfg.hood); break;
		case 4: g.set_load_balancing_method(cfg.method); break;
		}
		if (r.chance(30)) try_max(ref_max_possible(L) + 1 + int(r.below(3))); // refused
		check_parameters();
		g.initialize(e.comm);
		after();
	}

	//! nothing can be changed any more
	void after()
	{
		const Config& cfg = e.cfg;
		REQUIRE(g.get_initialized(), "grid isn't initialized");
		REQUIRE(throws_invalid([&]() { g.initialize(e.comm); }), "second initialization succeeded");
		REQUIRE(throws_invalid([&]() { g.set_initial_length({{2, 1, 1}}); }), "length was changed after initialization");
		check_parameters();
		REQUIRE(L == cfg.L && max == cfg.max, "harness set other parameters");
		for (size_t d = 0; d < 3; d++) REQUIRE(g.topology.is_periodic(d) == cfg.per[d], "periodicity of dimension ", d);
		REQUIRE(g.get_neighborhood_length() == cfg.hood, "neighborhood length is ", g.get_neighborhood_length());
		REQUIRE(g.get_load_balancing_method() == cfg.method, "load balancing method is ", g.get_load_balancing_method());
		REQUIRE(g.get_rank() == e.rank && g.get_comm_size() == e.np, "rank or number of processes");
		Geom_Traits<Geom>::apply(g, e.coords);
		Geom_Traits<Geom>::refused(g, e.coords, r);
	}
};

/*!
Creates the grid of given engine, returns false if the grid can't be created with its parameters.
*/
template<class Grid, class Geom> bool create_by_setup(Engine<Grid, Geom>& e, u64 seed)
{
	e.g = new Grid;
	Setup<Grid, Geom> s(e, *e.g, seed);
	s.run();
	if (!e.g->get_initialized()) {
		delete e.g;
		e.g = nullptr;
		return false;
	}
	e.g->set_send_single_cells(e.cfg.single);
	e.sync();
	for (const u64 id : e.lv.ids) e.data[id];
	// unrefined cells without data that are divided evenly
	std::vector<u64> n(size_t(e.np), 0);
	for (const auto& i : e.lv.owner) {
		REQUIRE(e.lv.level(i.first) == 0, "refined cell ", i.first, " in a new grid");
		n[size_t(i.second)]++;
	}
	REQUIRE(*std::max_element(n.begin(), n.end()) - *std::min_element(n.begin(), n.end()) <= 1, "cells of a new grid aren't divided evenly");
	e.check_local_data("in a new grid");
	// geometry
	for (const u64 id : e.lv.ids) {
		const std::array<double, 3> want = e.center(id), got = e.g->geometry.get_center(id);
		REQUIRE(want == got, "center of cell ", id, " is ", got[0], " ", got[1], " ", got[2]);
	}
	if (e.np > 1 || e.lv.size() > 1) nontrivial_case = true;
	return true;
}

} // namespace
#endif
