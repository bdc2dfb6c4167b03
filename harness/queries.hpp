/*
Searches by indices and neighborhoods and queries of complete lists.
*/
#ifndef VP_QUERIES_HPP
#define VP_QUERIES_HPP
#include "checks.hpp"

namespace vp {

//! cells of a box in the order in which they are found by going through it
template<class E> std::vector<u64> cells_in_box(const E& e, const idx3& a, const idx3& b, u64 step, int lo, int hi)
{
	std::vector<u64> ret;
	std::set<u64> seen;
	idx3 i;
	for (i[2] = a[2]; i[2] <= b[2]; i[2] += step)
	for (i[1] = a[1]; i[1] <= b[1]; i[1] += step)
	for (i[0] = a[0]; i[0] <= b[0]; i[0] += step) {
		const u64 id = e.lv.at(i);
		const int l = id == 0 ? -1 : e.lv.level(id);
		if (l >= lo && l <= hi && seen.insert(id).second) ret.push_back(id);
	}
	return ret;
}

typedef std::unordered_map<int, std::vector<std::pair<u64, int>>> transfers_t;

//! lists of transferred cells of all processes fit together
template<class E> void check_transfers(const E& e, int h, const transfers_t& to_send, const transfers_t& to_receive)
{
	// sender, receiver -> cells
	std::map<std::pair<int, int>, std::set<u64>> want;
	for (const auto& i : e.all_of(h)) {
		const int to = e.lv.owner.at(i.first);
		for (const auto& n : i.second) {
			const int from = e.lv.owner.at(n.first);
			if (from != to) want[{from, to}].insert(n.first);
		}
	}
	auto cells = [&](const transfers_t& t, int other, const char* what) {
		std::set<u64> ret;
		const auto i = t.find(other);
		if (i == t.end()) return ret;
		std::set<int> tags;
		for (const auto& c : i->second) {
			REQUIRE(ret.insert(c.first).second, "cell ", c.first, " is ", what, " twice in neighborhood ", h);
			REQUIRE(tags.insert(c.second).second, "tag ", c.second, " is used for several cells ", what, " in neighborhood ", h);
			REQUIRE(c.second >= 0 && unsigned(c.second) <= e.g->get_max_tag(), "tag ", c.second, " of cell ", c.first);
		}
		return ret;
	};
	for (int p = 0; p < e.np; p++) {
		const auto s = want.find({e.rank, p}), r = want.find({p, e.rank});
		const std::set<u64> none;
		REQUIRE(cells(to_send, p, "sent") == (s == want.end() ? none : s->second), "cells to send to process ", p, " in neighborhood ", h);
		REQUIRE(cells(to_receive, p, "received") == (r == want.end() ? none : r->second),
			"cells to receive from process ", p, " in neighborhood ", h);
	}
	// order and tags are the same on both sides
	std::vector<u64> mine;
	for (int p = 0; p < e.np; p++) {
		const auto i = to_send.find(p);
		mine.push_back(i == to_send.end() ? 0 : i->second.size());
		if (i != to_send.end()) for (const auto& c : i->second) {
			mine.push_back(c.first);
			mine.push_back(u64(c.second));
		}
	}
	std::vector<int> from;
	const std::vector<u64> all = e.gather(mine, &from);
	size_t at = 0;
	for (int p = 0; p < e.np; p++) {
		for (int q = 0; q < e.np; q++) {
			const u64 n = all[at++];
			if (q != e.rank) {
				at += 2 * n;
				continue;
			}
			const auto i = to_receive.find(p);
			REQUIRE((i == to_receive.end() ? 0 : i->second.size()) == n, "number of cells between processes");
			for (u64 k = 0; k < n; k++) {
				REQUIRE(i->second[k].first == all[at], "order of cells sent by ", p, " and received by ", e.rank, " differs");
				REQUIRE(u64(i->second[k].second) == all[at + 1], "tag of cell ", all[at], " differs between sender and receiver");
				at += 2;
				stats.checks++;
			}
		}
	}
}

template<class E> void check_queries(E& e, u64 seed)
{
	auto& g = *e.g;
	const auto& lv = e.lv;
	Rng r(seed);
	// collective, numbers used by processes differ later
	const bool compare_communicator = r.chance(10);
	const u64 l0 = lv.r.len(0);
	const int max = lv.r.max;
	const idx3 total{{lv.r.L[0] * l0, lv.r.L[1] * l0, lv.r.L[2] * l0}};

	// boxes
	for (int k = 0; k < 6; k++) {
		const u64 near = lv.ids[r.below(lv.ids.size())];
		const idx3 c = lv.r.indices(lv.r.pos(near));
		const int top = lv.level(lv.ids.back());
		const int hi = k % 2 == 0 ? max : int(r.below(u64(max) + 1)), lo = k < 3 ? 0 : int(r.below(u64(hi) + 1));
		const u64 step = u64(1) << (max - hi);
		// indices are gone through one cell of the largest level at a time
		const u64 unit = std::max(step, top < max && k % 3 != 0 ? u64(1) << (max - top) : step);
		idx3 a, b;
		for (size_t d = 0; d < 3; d++) {
			const u64 width = (1 + r.below(5)) * unit, back = r.below(3) * unit;
			a[d] = (c[d] > back ? c[d] - back : 0) / step * step;
			b[d] = std::min(a[d] + width, total[d]) - 1;
			if ((b[d] - a[d]) / step > 11) b[d] = a[d] + 12 * step - 1;
		}
		if (k == 5 && r.chance(30)) b = a;
		std::vector<u64> got;
		for (const u64 id : g.find_cells(a, b, lo, hi)) if (id != 0) got.push_back(id);
		const std::vector<u64> want = cells_in_box(e, a, b, step, lo, hi);
		REQUIRE(got == want, "find_cells between ", a[0], ",", a[1], ",", a[2], " and ", b[0], ",", b[1], ",", b[2], " and levels ",
			lo, " to ", hi, " returned ", got.size(), " cells instead of ", want.size());
		stats.checks++;
		stats.label("cells found by indices", want.size());
	}

	// neighbors by arbitrary offsets
	const auto& all = e.hood();
	std::vector<off3> hood, opposite;
	const u64 n_items = 1 + r.below(std::min<u64>(all.size(), 12));
	for (u64 i = 0; i < n_items; i++) hood.push_back(all[r.below(all.size())]);
	for (const off3& o : hood) opposite.push_back({{-o[0], -o[1], -o[2]}});
	const auto of = lv.all_neighbors_of(hood);
	const auto to = Leaves::invert(of);
	for (const u64 id : lv.ids) {
		if (!e.mine(id) || !r.chance(50)) continue;
		const nlist got = without_errors(g.find_neighbors_of(id, hood));
		REQUIRE(got == of.at(id), "find_neighbors_of of cell ", id, " returned", show(got), " instead of", show(of.at(id)));
		const nlist got_to = g.find_neighbors_to(id, opposite);
		const auto t = to.find(id);
		const std::set<u64> want = t == to.end() ? std::set<u64>() : t->second;
		const std::set<u64> ids = ids_of(got_to);
		REQUIRE(ids == want, "find_neighbors_to of cell ", id, " returned", show(got_to), ", ", want.size(), " cells expected");
		REQUIRE(ids.size() == without_errors(got_to).size(), "find_neighbors_to of cell ", id, " has repeated cells");
		for (const auto& i : got_to) REQUIRE(i.second == off3({{0, 0, 0}}), "find_neighbors_to returned an offset");
		stats.checks += 2;

		// indices
		const Pos p = lv.r.pos(id);
		const idx3 me = lv.r.indices(p);
		const u64 len = lv.r.len(p.lvl);
		const auto ind = g.indices_from_neighborhood(me, len, hood);
		REQUIRE(ind.size() == hood.size(), "number of indices in neighborhood");
		for (size_t i = 0; i < hood.size(); i++) {
			idx3 w;
			bool out = false;
			for (size_t d = 0; d < 3; d++) {
				const int64_t tot = int64_t(total[d]), x = int64_t(me[d]) + hood[i][d] * int64_t(len);
				const int64_t m = ((x % tot) + tot) % tot;
				if (m != x && !lv.per[d]) out = true;
				w[d] = u64(m);
			}
			for (size_t d = 0; d < 3; d++) {
				REQUIRE(ind[i][d] == (out ? dccrg::error_index : w[d]), "index ", d, " of cell ", id, " at offset ", hood[i][0], " ", hood[i][1],
					" ", hood[i][2], " is ", ind[i][d]);
			}
		}
	}
	// cells that don't exist
	for (int k = 0; k < 3; k++) {
		const u64 id = lv.ids[r.below(lv.ids.size())];
		const Pos p = lv.r.pos(id);
		u64 bad = 0;
		if (k == 1) bad = u64(lv.r.last()) + 1 + r.below(3);
		if (k == 2) {
			if (p.lvl > 0) bad = lv.r.id(lv.r.parent(p));
			else if (p.lvl < max) bad = lv.r.id(lv.r.children(p)[r.below(8)]);
		}
		bool nothing = false;
		try { nothing = g.find_neighbors_of(bad, hood).empty(); } catch (const std::runtime_error&) { nothing = true; }
		REQUIRE(nothing, "cell ", bad, " which doesn't exist has neighbors");
		if (bad == 0 || bad > lv.r.last()) {
			nothing = false;
			try { nothing = g.find_neighbors_to(bad, hood).empty(); } catch (const std::invalid_argument&) { nothing = true; }
			REQUIRE(nothing, "cell ", bad, " which doesn't exist is a neighbor");
		}
		REQUIRE(g.get_existing_cell(total, 0, max) == 0, "cell outside of the grid exists");
	}
	for (int k = 0; k < 8; k++) {
		const u64 s1 = u64(1) << r.below(u64(max) + 1), s2 = u64(1) << r.below(u64(max) + 1);
		const u64 smallest = std::min({total[0], total[1], total[2]});
		const u64 i1 = r.below(smallest / s1) * s1;
		u64 i2 = r.below(smallest / s2) * s2;
		// next to the first one
		if (k % 2 == 0) i2 = k % 4 == 0 && i1 + s1 + s2 <= smallest ? i1 + s1 : (i1 >= s2 ? i1 - s2 : i1);
		const bool want = i1 < i2 + s2 && i2 < i1 + s1;
		REQUIRE(g.indices_overlap(i1, s1, i2, s2) == want, "indices_overlap of ", i1, " + ", s1, " and ", i2, " + ", s2);
	}

	// family of cells
	for (const u64 id : lv.ids) {
		const Pos p = lv.r.pos(id);
		REQUIRE(g.get_parent(id) == id, "get_parent of cell ", id, " without existing parent returned ", g.get_parent(id));
		if (p.lvl < max) {
			const u64 child = lv.r.id(lv.r.children(p)[r.below(8)]);
			REQUIRE(g.get_parent(child) == id, "get_parent of child ", child, " of existing cell ", id, " returned ", g.get_parent(child));
		}
	}
	if (lv.level(lv.ids.back()) == 0) {
		std::vector<u64> given;
		std::unordered_set<u64> want;
		for (int k = 0; k < 8; k++) {
			Pos p = lv.r.pos(lv.ids[r.below(lv.ids.size())]);
			const bool own = e.mine(lv.r.id(p));
			const u64 deep = r.below(u64(max) + 1);
			for (u64 l = 0; l < deep; l++) p = lv.r.children(p)[r.below(8)];
			const u64 id = lv.r.id(p);
			REQUIRE(g.cell_overlaps_local(id) == own, "cell_overlaps_local of cell ", id);
			given.push_back(id);
			if (own) want.insert(id);
		}
		REQUIRE(g.get_cells_overlapping_local(given) == want, "get_cells_overlapping_local");
	}

	// complete lists
	{
		std::map<u64, int> owners;
		for (const auto& i : g.get_cell_process()) owners[i.first] = int(i.second);
		REQUIRE(owners == lv.owner, "get_cell_process has ", owners.size(), " cells instead of ", lv.owner.size());
	}
	REQUIRE(g.get_all_user_neigh_of().size() == e.hoods.size() - 1 && g.get_all_user_neigh_to().size() == e.hoods.size() - 1,
		"number of neighborhoods with neighbors");
	REQUIRE(g.get_user_hood_of().size() == e.hoods.size() - 1 && g.get_user_hood_to().size() == e.hoods.size() - 1,
		"number of user neighborhoods");
	for (const auto& h : e.hoods) {
		const bool def = h.first == hood_default;
		const auto& ho = def ? g.get_neighborhood_of() : g.get_user_hood_of().at(h.first);
		const auto& ht = def ? g.get_neighborhood_to() : g.get_user_hood_to().at(h.first);
		REQUIRE(ho == h.second, "items of neighborhood ", h.first);
		std::set<off3> back, got_back(ht.begin(), ht.end());
		for (const off3& o : h.second) back.insert({{-o[0], -o[1], -o[2]}});
		REQUIRE(got_back == back, "opposite items of neighborhood ", h.first);
		const auto& no = def ? g.get_all_neighbors_of() : g.get_all_user_neigh_of().at(h.first);
		const auto& nt = def ? g.get_all_neighbors_to() : g.get_all_user_neigh_to().at(h.first);
		const auto& want_of = e.all_of(h.first);
		const auto& want_to = e.all_to(h.first);
		for (const u64 id : lv.ids) {
			if (!e.mine(id)) continue;
			REQUIRE(no.count(id) && nt.count(id), "no list of neighbors of cell ", id, " in neighborhood ", h.first);
			REQUIRE(without_errors(no.at(id)) == want_of.at(id), "list of neighbors of cell ", id, " in neighborhood ", h.first);
			const auto t = want_to.find(id);
			REQUIRE(ids_of(nt.at(id)) == (t == want_to.end() ? std::set<u64>() : t->second), "list of neighbors to cell ", id,
				" in neighborhood ", h.first);
			stats.checks += 2;
		}
		std::set<u64> local, remote;
		for (const auto& i : want_of) {
			for (const auto& n : i.second) {
				if (e.mine(i.first) == e.mine(n.first)) continue;
				(e.mine(i.first) ? local : remote).insert(i.first);
				(e.mine(n.first) ? local : remote).insert(n.first);
			}
		}
		const auto& bl = def ? g.get_local_cells_on_process_boundary_internal() : g.get_user_local_cells_on_process_boundary().at(h.first);
		const auto& br = def ? g.get_remote_cells_on_process_boundary_internal() : g.get_user_remote_cells_on_process_boundary().at(h.first);
		REQUIRE(std::set<u64>(bl.begin(), bl.end()) == local, "list of local cells on process boundary in neighborhood ", h.first);
		REQUIRE(std::set<u64>(br.begin(), br.end()) == remote, "list of remote cells on process boundary in neighborhood ", h.first);

		static const transfers_t nobody;
		auto user = [&](const std::unordered_map<int, transfers_t>& t) -> const transfers_t& {
			const auto i = t.find(h.first);
			return i == t.end() ? nobody : i->second;
		};
		check_transfers(e, h.first, def ? g.get_cells_to_send() : user(g.get_user_neigh_cells_to_send()),
			def ? g.get_cells_to_receive() : user(g.get_user_neigh_cells_to_receive()));

		// copies can be created before receiving
		if (r.chance(30)) {
			g.allocate_copies_of_remote_neighbors(h.first);
			for (const u64 id : remote) REQUIRE(g[id] != nullptr, "no copy of cell ", id, " in neighborhood ", h.first);
		}
	}
	bool refused = false;
	try { g.allocate_copies_of_remote_neighbors(12345); } catch (const std::invalid_argument&) { refused = true; }
	REQUIRE(refused, "copies of remote neighbors allocated in unknown neighborhood");

	// weights that have been set
	{
		std::map<u64, double> want;
		for (const auto& i : e.weights) if (e.mine(i.first)) want[i.first] = i.second;
		for (const auto& i : g.get_cell_weights()) {
			if (want.count(i.first) == 0) REQUIRE(i.second == 1 && lv.has(i.first), "weight ", i.second, " of cell ", i.first);
			else REQUIRE(want[i.first] == i.second, "weight ", i.second, " of cell ", i.first);
			want.erase(i.first);
		}
		REQUIRE(want.empty(), "weights of cells are missing");
	}

	// parameters
	REQUIRE(g.get_rank() == e.rank && g.get_comm_size() == e.np, "wrong rank or number of processes");
	REQUIRE(g.get_initialized() && g.get_mapping_initialized(), "grid isn't initialized");
	REQUIRE(g.get_maximum_refinement_level() == max, "maximum refinement level ", g.get_maximum_refinement_level());
	REQUIRE(g.get_max_ref_lvl_diff() == 1, "maximum difference of refinement levels");
	REQUIRE(!g.get_balancing_load(), "load balancing is going on");
	REQUIRE(g.length.get() == lv.r.L, "length of grid");
	for (size_t d = 0; d < 3; d++) REQUIRE(g.topology.is_periodic(d) == lv.per[d], "periodicity in dimension ", d);
	REQUIRE(g.get_neighborhood_length() == e.cfg.hood, "neighborhood length");
	if (compare_communicator) {
		MPI_Comm c = g.get_communicator();
		int result = MPI_UNEQUAL;
		MPI_Comm_compare(c, e.comm, &result);
		REQUIRE(result == MPI_CONGRUENT, "communicator of grid isn't a duplicate of the given one");
		MPI_Comm_free(&c);
	}
	if (e.np > 1 && lv.level(lv.ids.back()) > 0) nontrivial_case = true;
}

} // namespace
#endif
