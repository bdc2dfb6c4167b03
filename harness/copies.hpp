/*
Grids constructed from other grids, possibly with other data and geometry.
*/
#ifndef VP_COPIES_HPP
#define VP_COPIES_HPP
#include "files.hpp"

namespace vp {

//! nothing that was done to another grid is visible in this one
template<class E> void check_undisturbed(E& x, u64 seed)
{
	x.sync();
	{ As_Property p("C04"); check_ownership(x, seed); }
	{ As_Property p("C06"); check_neighbors(x); }
	{ As_Property p("C12"); check_iterators(x, seed); }
	x.check_local_data("after using another grid");
}

//! some history decided with all oracles
template<class E> void evolve(E& x, Rng& r, u64 n)
{
	u64 prev = 0;
	bool weights_known = x.weights.empty();
	for (u64 i = 0; i < n; i++) {
		switch (r.below(7)) {
		case 0:
			x.set_all_data();
			break;
		case 1: case 2: {
			As_Property p(weights_known ? "C07" : "C04");
			const int kind = r.chance(60) ? 0 : 1;
			const u64 m = 1 + r.below(4);
			for (u64 j = 0; j < m; j++) {
				const u64 cell = x.pick(r.next() >> 8, prev);
				prev = cell;
				if (kind == 0 && x.lv.level(cell) < x.cfg.max) {
					const bool fresh = x.R.insert(cell).second;
					const size_t size = x.lv.size() + 7 * x.expected_refines().size();
					if (fresh) x.R.erase(cell);
					if (size > x.cap) continue;
				}
				x.request(kind, cell, r.chance(50), r.next() >> 8);
			}
			x.stop(r.chance(50));
			if (r.chance(30)) x.clear_kept();
			break;
		}
		case 3: case 4: {
			As_Property p("C09");
			x.balance(r.chance(70), unsigned(r.below(4)), r.chance(30) ? r.next() | 1 : 0);
			weights_known = true;
			break;
		}
		case 5: {
			As_Property p("C08");
			x.update(x.some_hood(r.next() >> 8), r.below(1024));
			break;
		}
		case 6: {
			const u64 a = r.next() >> 8, b = r.next() >> 8;
			if (r.chance(70)) x.add_hood(a, b, 0);
			else x.remove_hood(a);
			break;
		}
		}
	}
	check_undisturbed(x, r.next());
}

template<class A, class B> void compare_copy(const A& a, B& b, u64 seed)
{
	for (const u64 id : a.lv.ids) b.data[id];
	b.g->set_send_single_cells(a.g->get_send_single_cells());
	b.sync();
	REQUIRE(a.lv.owner == b.lv.owner, "cells or owners of a copied grid differ");
	check_same_grid(a, b);
	b.check_local_data("in a copied grid");
	REQUIRE(b.g->get_removed_cells().empty(), "copied grid has removed cells");
	for (const auto& i : a.kept) REQUIRE((*b.g)[i.first] == nullptr, "copied grid has data of removed cell ", i.first);
	b.weights = a.weights;
	{ As_Property p("C04"); check_ownership(b, seed); }
	{ As_Property p("C06"); check_neighbors(b); }
	{ As_Property p("C12"); check_iterators(b, seed); }
}

template<class G2, class G3, class Geom2, class E> void copy_to(E& e, Cursor& c)
{
	typedef Engine<G2, Geom2> E2;
	Rng r(c.next());
	E2 e2;
	e2.init(e.cfg, e.comm);
	e2.coords = e.coords;
	e2.version = e.version + 1000;
	e2.g = new G2(*e.g);
	compare_copy(e, e2, r.next());
	const u64 rounds = 1 + r.below(2);
	for (u64 i = 0; i < rounds; i++) {
		evolve(e2, r, 1 + r.below(5));
		check_undisturbed(e, r.next());
		if (r.chance(60)) {
			evolve(e, r, 1 + r.below(4));
			check_undisturbed(e2, r.next());
		}
	}
	if (r.chance(50)) {
		// original doesn't exist anymore
		for (const int h : {1, 0, -7}) e2.remove_hood_id(h);
		if (!e2.R.empty() || !e2.U.empty() || !e2.DR.empty() || !e2.DU.empty()) e2.stop(false);
		if (!e2.pins.empty()) e2.unpin(0, 0);
		Engine<G3, Geom2> e3;
		e3.init(e.cfg, e.comm);
		e3.coords = e.coords;
		e3.version = e2.version + 1000;
		e3.g = new G3(*e2.g);
		compare_copy(e2, e3, r.next());
		delete e2.g;
		e2.g = nullptr;
		evolve(e3, r, 1 + r.below(5));
		delete e3.g;
		stats.label("original removed");
	}
	delete e2.g;
	stats.label("copies");
	bool levels = false;
	for (const u64 id : e.lv.ids) if (e.lv.level(id) != e.lv.level(e.lv.ids[0])) levels = true;
	if (levels || e.np > 1) nontrivial_case = true;
}

template<class Geom> struct Other_Geometry { typedef Geom type; };
template<> struct Other_Geometry<dccrg::Cartesian_Geometry> { typedef dccrg::Stretched_Cartesian_Geometry type; };

template<template<class, class> class GT, class Geom, class E> void copy_grid(E& e, Cursor& c)
{
	// neither of these is included
	for (const int h : {1, 0, -7}) e.remove_hood_id(h);
	if (!e.R.empty() || !e.U.empty() || !e.DR.empty() || !e.DU.empty()) e.stop(false);
	// documentation doesn't say whether cells of the copy are pinned
	if (!e.pins.empty()) e.unpin(0, 0);
	typedef typename Other_Geometry<Geom>::type Geom2;
	if (c.flag()) {
		copy_to<GT<CellT<0>, Geom>, GT<CellT<0>, Geom>, Geom>(e, c);
		return;
	}
	copy_to<GT<CellT<1>, Geom2>, GT<CellT<0>, Geom2>, Geom2>(e, c);
}

} // namespace
#endif
