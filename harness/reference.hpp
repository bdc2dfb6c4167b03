/*
The same history on one process: what an application computes must not depend
on the number of processes or on which process has which cells.
*/
#ifndef VP_REFERENCE_HPP
#define VP_REFERENCE_HPP
#include "engine.hpp"

namespace vp {

template<class E> struct Reference {
	E e;

	explicit Reference(const E& other)
	{
		e.init(other.cfg, MPI_COMM_SELF);
		e.create();
		REQUIRE(e.lv.ids == other.lv.ids, "initial cells depend on number of processes");
	}
	~Reference() { delete e.g; }

	void set_data(const E& other)
	{
		e.version = other.version;
		for (const u64 id : e.lv.ids) e.set_data(id);
	}

	//! initializes data of new cells from their parents and children
	static void interpolate(E& x)
	{
		auto& g = *x.g;
		for (const u64 id : x.last_created) {
			const auto* p = g[g.get_parent(id)];
			REQUIRE(p != nullptr, "no data for parent of created cell ", id);
			auto* c = g[id];
			REQUIRE(c != nullptr, "no data for created cell ", id);
			c->w[0] = mix(p->w[0], id);
		}
		std::map<u64, u64> sum;
		for (const u64 id : g.get_removed_cells()) {
			const auto* c = g[id];
			REQUIRE(c != nullptr, "no data for removed cell ", id);
			sum[g.mapping.get_parent(id)] += mix(c->w[0], id);
		}
		for (const auto& i : sum) {
			auto* p = g[i.first];
			REQUIRE(p != nullptr, "no data for parent of removed cells ", i.first);
			p->w[0] = i.second;
		}
		g.clear_refined_unrefined_data();
		x.kept.clear();
	}

	void compare(E& other, const char* when)
	{
		REQUIRE(e.lv.ids == other.lv.ids, "cells on ", other.np, " processes differ from cells on one process ", when);
		for (const u64 id : e.lv.ids) {
			if (!other.mine(id)) continue;
			const auto *a = (*other.g)[id], *b = (*e.g)[id];
			REQUIRE(a != nullptr && b != nullptr, "no data for cell ", id);
			REQUIRE(a->w[0] == b->w[0], "result of cell ", id, " on ", other.np,
				" processes differs from result on one process ", when);
			stats.checks++;
		}
	}

	void stop(E& other)
	{
		e.stop(false);
		REQUIRE(e.lv.ids == other.lv.ids, "cells after refinement on ", other.np, " processes differ from cells on one process");
		interpolate(other);
		interpolate(e);
		compare(other, "after refinement");
	}

	static void step(E& x, bool cached)
	{
		auto& g = *x.g;
		std::map<u64, u64> result;
		auto term = [](u64 v, int i, int j, int k) {
			return mix(v, u64(i + 100000) * 1000003 + u64(j + 100000) * 10007 + u64(k + 100000));
		};
		if (cached) {
			for (const auto& c : g.local_cells()) {
				u64 s = 0;
				for (const auto& n : c.neighbors_of) {
					REQUIRE(n.data != nullptr, "no data for neighbor ", n.id, " of cell ", c.id);
					s += term(n.data->w[0], n.x, n.y, n.z);
				}
				result[c.id] = mix(c.data->w[0], s);
			}
		} else {
			for (const u64 id : g.get_cells()) {
				u64 s = 0;
				const auto* l = g.get_neighbors_of(id);
				REQUIRE(l != nullptr, "no neighbors of cell ", id);
				for (const auto& n : *l) {
					if (n.first == 0) continue;
					const auto* d = g[n.first];
					REQUIRE(d != nullptr, "no data for neighbor ", n.first, " of cell ", id);
					s += term(d->w[0], n.second[0], n.second[1], n.second[2]);
				}
				result[id] = mix(g[id]->w[0], s);
			}
		}
		for (const auto& i : result) g[i.first]->w[0] = i.second;
	}

	void compute(E& other, Cursor& c)
	{
		const bool cached = c.flag();
		const u64 style = c.next();
		const u64 steps = 1 + c.below(2);
		for (u64 i = 0; i < steps; i++) {
			other.update(hood_default, style % 4);
			e.update(hood_default, 0);
			step(other, cached);
			step(e, cached);
		}
		compare(other, "after computing");
		if (other.np > 1) nontrivial_case = true;
	}
};

} // namespace
#endif
