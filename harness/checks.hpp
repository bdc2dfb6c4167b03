/*
Oracles over the state of a grid between operations.
*/
#ifndef VP_CHECKS_HPP
#define VP_CHECKS_HPP
#include "engine.hpp"

namespace vp {

inline nlist without_errors(const nlist& l)
{
	nlist r;
	for (const auto& i : l) if (i.first != 0) r.push_back(i);
	return r;
}

inline std::string show(const nlist& l)
{
	std::ostringstream o;
	for (const auto& i : l) o << " " << i.first << "(" << i.second[0] << "," << i.second[1] << "," << i.second[2] << ")";
	return o.str();
}

inline std::set<u64> ids_of(const nlist& l)
{
	std::set<u64> r;
	for (const auto& i : l) if (i.first != 0) r.insert(i.first);
	return r;
}

inline std::set<u64> to_set(const std::vector<u64>& v, const char* what)
{
	std::set<u64> s(v.begin(), v.end());
	REQUIRE(s.size() == v.size(), what, " has a cell more than once");
	return s;
}

//! existing cells and their owners are the same for everyone
template<class E> void check_ownership(E& e, u64 seed)
{
	auto& g = *e.g;
	const auto& lv = e.lv;
	Rng r(seed);
	std::vector<u64> all = g.get_all_cells(true);
	REQUIRE(std::is_sorted(all.begin(), all.end()), "get_all_cells isn't sorted");
	REQUIRE(all == lv.ids, "get_all_cells of process ", e.rank, " returned ", all.size(), " cells, ", lv.size(), " exist");
	REQUIRE(g.get_rank() == e.rank && g.get_comm_size() == e.np, "wrong rank or number of processes");
	size_t n_local = 0;
	for (const auto& i : lv.owner) {
		const u64 id = i.first;
		REQUIRE(g.get_process(id) == i.second, "get_process of cell ", id, " is ", g.get_process(id), " instead of ", i.second);
		REQUIRE(g.is_local(id) == (i.second == e.rank), "is_local of cell ", id);
		if (i.second == e.rank) {
			n_local++;
			REQUIRE(g[id] != nullptr, "no data for local cell ", id);
		}
		const Pos p = lv.r.pos(id);
		REQUIRE(g.get_refinement_level(id) == p.lvl, "refinement level of cell ", id);
		// cells which can't exist at the same time
		if (p.lvl > 0) {
			const u64 b = lv.r.id(lv.r.parent(p));
			REQUIRE(g.get_process(b) == -1, "parent ", b, " of existing cell ", id, " is on process ", g.get_process(b));
			REQUIRE(!g.is_local(b), "parent ", b, " of existing cell ", id, " is local");
		}
		if (p.lvl < lv.r.max) {
			const u64 b = lv.r.id(lv.r.children(p)[r.below(8)]);
			REQUIRE(g.get_process(b) == -1, "child ", b, " of existing cell ", id, " is on process ", g.get_process(b));
			REQUIRE(!g.is_local(b), "child ", b, " of existing cell ", id, " is local");
		}
		if (r.chance(40)) {
			const idx3 a = lv.r.indices(p);
			const u64 len = lv.r.len(p.lvl);
			dccrg::Types<3>::indices_t x;
			for (int d = 0; d < 3; d++) x[size_t(d)] = a[size_t(d)] + r.below(len);
			REQUIRE(g.get_existing_cell(x, 0, lv.r.max) == id, "get_existing_cell at indices of cell ", id, " returned ",
				g.get_existing_cell(x, 0, lv.r.max));
			const int lo = int(r.below(u64(lv.r.max) + 1)), hi = lo + int(r.below(u64(lv.r.max - lo) + 1));
			const u64 want = p.lvl >= lo && p.lvl <= hi ? id : 0;
			REQUIRE(g.get_existing_cell(x, lo, hi) == want, "get_existing_cell between levels ", lo, " and ", hi,
				" at indices of cell ", id, " returned ", g.get_existing_cell(x, lo, hi));
			const std::array<double, 3> c = e.point(id, r.next() >> 8);
			REQUIRE(g.get_existing_cell(c) == id, "get_existing_cell at ", c[0], " ", c[1], " ", c[2], " returned ",
				g.get_existing_cell(c), " instead of ", id);
		}
		stats.checks++;
	}
	REQUIRE(g.get_cell_data().size() == n_local, "process ", e.rank, " has data of ", g.get_cell_data().size(),
		" cells but owns ", n_local);
	for (int d = 0; d < 3; d++) {
		if (lv.per[d]) continue;
		std::array<double, 3> c = e.point(lv.ids[0], 0);
		c[size_t(d)] = r.flag_() ? e.coords[size_t(d)].back() + 1.5 : e.coords[size_t(d)].front() - 0.75;
		REQUIRE(g.get_existing_cell(c) == 0, "cell exists outside of the grid");
	}
	REQUIRE(g.get_process(0) == -1 && g.get_process(u64(lv.r.last()) + 1) == -1, "process of a cell that can't exist");
	// iteration sees the same cells
	std::vector<u64> it;
	for (const auto& c : g.local_cells()) it.push_back(c.id);
	std::set<u64> s = to_set(it, "local_cells()");
	REQUIRE(s.size() == n_local, "local_cells() has ", s.size(), " cells instead of ", n_local);
	for (const u64 id : s) REQUIRE(lv.has(id) && e.mine(id), "local_cells() has remote cell ", id);
}

//! neighbor lists against geometry
template<class E> void check_neighbors(E& e)
{
	auto& g = *e.g;
	const auto& lv = e.lv;
	for (const auto& h : e.hoods) {
		const auto& of = e.all_of(h.first);
		const auto& to = e.all_to(h.first);
		const bool def = h.first == hood_default;
		for (const u64 id : lv.ids) {
			if (!e.mine(id)) continue;
			const auto* n = g.get_neighbors_of(id, h.first);
			REQUIRE(n != nullptr, "no neighbors of local cell ", id, " in neighborhood ", h.first);
			const nlist got = without_errors(*n);
			REQUIRE(got == of.at(id), "neighbors of cell ", id, " in neighborhood ", h.first, " are", show(got),
				" instead of", show(of.at(id)));
			const auto* t = g.get_neighbors_to(id, h.first);
			REQUIRE(t != nullptr, "no neighbors to local cell ", id, " in neighborhood ", h.first);
			const auto w = to.find(id);
			const std::set<u64> want = w == to.end() ? std::set<u64>() : w->second;
			const std::set<u64> ts = ids_of(*t);
			REQUIRE(ts == want, "cell ", id, " has ", ts.size(), " neighbors_to instead of ", want.size(),
				" in neighborhood ", h.first, ":", show(*t));
			REQUIRE(ts.size() == t->size(), "repeated neighbors_to of cell ", id);
			stats.checks += 2;

			// remote ones only
			std::set<u64> ro, rt;
			for (const auto& i : of.at(id)) if (!e.mine(i.first)) ro.insert(i.first);
			for (const u64 i : want) if (!e.mine(i)) rt.insert(i);
			const auto gro = g.get_remote_neighbors_of(id, h.first, true), grt = g.get_remote_neighbors_to(id, h.first, true);
			REQUIRE(std::is_sorted(gro.begin(), gro.end()) && std::is_sorted(grt.begin(), grt.end()), "not sorted");
			REQUIRE(std::set<u64>(gro.begin(), gro.end()) == ro, "remote neighbors of cell ", id);
			REQUIRE(std::set<u64>(grt.begin(), grt.end()) == rt, "remote neighbors to cell ", id);

			if (!def) continue;
			// faces
			std::set<std::pair<u64, int>> faces;
			const idx3 me = lv.r.indices(lv.r.pos(id));
			const int64_t len = int64_t(lv.r.len(lv.level(id)));
			(void) me;
			static const std::vector<off3> face_hood = default_hood(0);
			for (const off3& f : face_hood) {
				int d = 0;
				while (f[size_t(d)] == 0) d++;
				for (const auto& i : lv.neighbors_of(id, {f})) {
					const int64_t l = int64_t(lv.r.len(lv.level(i.first)));
					// touches the face
					if (f[size_t(d)] > 0 ? i.second[size_t(d)] == len : i.second[size_t(d)] + l == 0) {
						faces.insert({i.first, f[size_t(d)] * (d + 1)});
					}
				}
			}
			const auto fn = g.get_face_neighbors_of(id);
			const std::set<std::pair<u64, int>> got_faces(fn.begin(), fn.end());
			REQUIRE(got_faces == faces, "face neighbors of cell ", id, ": ", got_faces.size(), " instead of ", faces.size());
			REQUIRE(fn.size() == got_faces.size(), "repeated face neighbors of cell ", id);
			// one in each direction, closest to the start of the grid
			const auto& one = g.get_neighbors_();
			const auto mine = one.find(id);
			REQUIRE(mine != one.end(), "no list of face neighbors of cell ", id);
			for (int d = 0; d < 6; d++) {
				u64 best = 0, sum = 0;
				for (const auto& i : faces) if (i.second == (d / 2 + 1) * (d % 2 == 0 ? -1 : 1)) {
					const idx3 p = lv.r.indices(lv.r.pos(i.first));
					if (best == 0 || p[0] + p[1] + p[2] < sum) {
						best = i.first;
						sum = p[0] + p[1] + p[2];
					}
				}
				REQUIRE(mine->second[size_t(d)] == best, "face neighbor of cell ", id, " in direction ", d, " is ",
					mine->second[size_t(d)], " instead of ", best);
			}
			// by offset
			for (int k = 0; k < 3; k++) {
				const off3& o = h.second[(id * 7 + u64(k) * 5) % h.second.size()];
				const nlist w1 = lv.neighbors_of(id, {o});
				const auto g1 = g.get_neighbors_of_at_offset(id, o[0], o[1], o[2]);
				const std::set<std::pair<u64, off3>> want1(w1.begin(), w1.end()), got1(g1.begin(), g1.end());
				REQUIRE(got1 == want1 && g1.size() == want1.size(), "neighbors of cell ", id, " at offset ", o[0], " ", o[1], " ", o[2], " are",
					show(g1), " instead of", show(w1));
			}
			const int far = int(std::max(1u, e.cfg.hood)) + 1;
			REQUIRE(g.get_neighbors_of_at_offset(id, id % 3 == 0 ? far : 0, id % 3 == 1 ? -far : 0, id % 3 == 2 ? far : 0).empty(),
				"neighbors outside of the neighborhood");
			REQUIRE(g.get_neighbors_of_at_offset(id, 0, 0, 0).empty(), "neighbor at offset 0");
		}
		// anything else doesn't have neighbors
		REQUIRE(g.get_neighbors_of(0, h.first) == nullptr && g.get_neighbors_to(0, h.first) == nullptr, "neighbors of error_cell");
		for (const u64 id : lv.ids) {
			const Pos p = lv.r.pos(id);
			if (p.lvl < e.cfg.max) for (const Pos& child : lv.r.children(p)) {
				const u64 b = lv.r.id(child);
				REQUIRE(g.get_neighbors_of(b, h.first) == nullptr && g.get_neighbors_to(b, h.first) == nullptr,
					"neighbors of non-existing cell ", b, " in neighborhood ", h.first);
			}
			if (p.lvl == 0) continue;
			const u64 b = lv.r.id(lv.r.parent(p));
			REQUIRE(g.get_neighbors_of(b, h.first) == nullptr, "neighbors of non-existing cell ", b, " in neighborhood ", h.first);
			REQUIRE(g.get_neighbors_to(b, h.first) == nullptr, "neighbors to non-existing cell ", b, " in neighborhood ", h.first);
		}
	}
	for (const int h : {12345, 1, 0, -7}) {
		if (e.hoods.count(h)) continue;
		for (const u64 id : lv.ids) {
			REQUIRE(g.get_neighbors_of(id, h) == nullptr, "neighbors of cell ", id, " in unknown neighborhood ", h);
			REQUIRE(g.get_neighbors_to(id, h) == nullptr, "neighbors to cell ", id, " in unknown neighborhood ", h);
		}
	}
}

//! iterators and queries based on the process boundary
template<class E> void check_iterators(E& e, u64 seed)
{
	auto& g = *e.g;
	const auto& lv = e.lv;
	Rng r(seed);
	// removed and unknown neighborhoods don't have cells
	for (const int h : {12345, 1, 0, -7}) {
		if (e.hoods.count(h)) continue;
		int refused = 0;
		for (int k = 0; k < 5; k++) {
			try {
				switch (k) {
				case 0: g.inner_cells(h); break;
				case 1: g.outer_cells(h); break;
				case 2: g.local_cells(h); break;
				case 3: g.remote_cells(h); break;
				case 4: g.all_cells(h); break;
				}
			} catch (const std::exception&) {
				refused |= 1 << k;
			}
		}
		REQUIRE(refused == 31, "iterators over cells of a neighborhood that doesn't exist: ", refused, " ", h);
		REQUIRE(g.get_local_cells_on_process_boundary(h).empty() && g.get_local_cells_not_on_process_boundary(h).empty()
			&& g.get_remote_cells_on_process_boundary(h).empty(), "boundary of a neighborhood that doesn't exist");
		REQUIRE(g.get_cells({dccrg::has_local_neighbor_both, dccrg::has_remote_neighbor_both, dccrg::has_no_neighbor}, false, h).empty(),
			"cells of a neighborhood that doesn't exist");
	}
	std::set<u64> default_remote;
	for (int pass = 0; pass < 2; pass++) // default neighborhood first
	for (const auto& h : e.hoods) {
		const bool def = h.first == hood_default;
		if (def != (pass == 0)) continue;
		const auto& of = e.all_of(h.first);
		const auto& to = e.all_to(h.first);
		static const std::set<u64> none;
		auto to_of = [&](u64 id) -> const std::set<u64>& {
			const auto i = to.find(id);
			return i == to.end() ? none : i->second;
		};
		std::set<u64> inner, outer, local, remote;
		std::map<u64, int> type;
		for (const u64 id : lv.ids) {
			int t = 0;
			for (const auto& n : of.at(id)) t |= e.mine(n.first) ? dccrg::has_local_neighbor_of : dccrg::has_remote_neighbor_of;
			for (const u64 n : to_of(id)) t |= e.mine(n) ? dccrg::has_local_neighbor_to : dccrg::has_remote_neighbor_to;
			if (e.mine(id)) {
				type[id] = t;
				local.insert(id);
				(t & dccrg::has_remote_neighbor_both ? outer : inner).insert(id);
			} else if (t & dccrg::has_local_neighbor_both) {
				remote.insert(id);
			}
		}
		if (def) default_remote = remote;
		if (!outer.empty() && !inner.empty()) nontrivial_case = nontrivial_case || is("C12");

		REQUIRE(to_set(g.get_local_cells_on_process_boundary(h.first), "local boundary") == outer,
			"local cells on process boundary in neighborhood ", h.first);
		REQUIRE(to_set(g.get_local_cells_not_on_process_boundary(h.first), "inner cells") == inner,
			"local cells not on process boundary in neighborhood ", h.first);
		REQUIRE(to_set(g.get_remote_cells_on_process_boundary(h.first), "remote boundary") == remote,
			"remote cells on process boundary in neighborhood ", h.first);
		for (const auto& v : {g.get_local_cells_on_process_boundary(h.first, true),
				g.get_local_cells_not_on_process_boundary(h.first, true),
				g.get_remote_cells_on_process_boundary(h.first, true)}) {
			REQUIRE(std::is_sorted(v.begin(), v.end()), "cells are not sorted");
		}

		std::vector<u64> v;
		for (const auto& c : g.inner_cells(h.first)) v.push_back(c.id);
		REQUIRE(to_set(v, "inner_cells()") == inner, "inner_cells() in neighborhood ", h.first);
		v.clear();
		for (const auto& c : g.outer_cells(h.first)) v.push_back(c.id);
		REQUIRE(to_set(v, "outer_cells()") == outer, "outer_cells() in neighborhood ", h.first);
		v.clear();
		for (const auto& c : g.local_cells(h.first)) v.push_back(c.id);
		REQUIRE(to_set(v, "local_cells()") == local, "local_cells() in neighborhood ", h.first);
		v.clear();
		for (const auto& c : g.remote_cells(h.first)) v.push_back(c.id);
		const std::set<u64> got_remote = to_set(v, "remote_cells()");
		if (def) REQUIRE(got_remote == remote, "remote_cells()");
		for (const u64 id : remote) REQUIRE(got_remote.count(id), "remote_cells() in neighborhood ", h.first, " doesn't have cell ", id);
		for (const u64 id : got_remote) REQUIRE(lv.has(id) && !e.mine(id), "remote_cells() has cell ", id);
		v.clear();
		for (const auto& c : g.all_cells(h.first)) v.push_back(c.id);
		std::set<u64> both = got_remote;
		both.insert(local.begin(), local.end());
		REQUIRE(to_set(v, "all_cells()") == both, "all_cells() in neighborhood ", h.first);

		for (const auto& c : g.all_cells(h.first)) {
			REQUIRE(c.data == g[c.id], "data of cell ", c.id, " in iterator isn't the cell's data");
			REQUIRE(c.data != nullptr, "no data of cell ", c.id, " in iterator");
			REQUIRE(c.item_id == c.id && c.item2 == c.id * 2 + 1, "user item of cell ", c.id, " wasn't updated");
			REQUIRE(c.item_local == e.mine(c.id) && c.item_level == lv.level(c.id), "user item of cell ", c.id, " is outdated");
		}
		for (const auto& c : g.local_cells(h.first)) {
			const nlist& want_of = of.at(c.id);
			const std::set<std::pair<u64, off3>> so(want_of.begin(), want_of.end());
			const std::set<u64>& st = to_of(c.id);
			std::set<std::pair<u64, off3>> got;
			std::set<u64> got_ids;
			size_t n = 0;
			auto entry = [&](u64 id, int x, int y, int z, const void* d, const Neighbor_Item& item) {
				REQUIRE(d == (const void*) g[id], "data of neighbor ", id, " of cell ", c.id, " isn't the cell's data");
				REQUIRE(d != nullptr || !lv.has(id) || !e.mine(id), "no data of neighbor ", id);
				REQUIRE(item.of_cell == c.id && item.neighbor_id == id && item.hood == h.first,
					"user item of neighbor ", id, " of cell ", c.id, " wasn't updated");
				got.insert({id, {{x, y, z}}});
				got_ids.insert(id);
				n++;
				stats.checks++;
			};
			for (const auto& i : c.neighbors_of) {
				entry(i.id, i.x, i.y, i.z, i.data, i);
				REQUIRE(i.data != nullptr, "no data of neighbor ", i.id, " of cell ", c.id);
			}
			REQUIRE(got == so && n == so.size(), "neighbors_of iterator of cell ", c.id, " in neighborhood ", h.first, " has ", n,
				" items instead of ", so.size());
			std::set<std::pair<u64, off3>> all = so;
			got.clear(); got_ids.clear(); n = 0;
			for (const auto& i : c.neighbors_to) entry(i.id, i.x, i.y, i.z, i.data, i);
			REQUIRE(got_ids == st, "neighbors_to iterator of cell ", c.id, " in neighborhood ", h.first, " has ", got_ids.size(),
				" cells instead of ", st.size());
			REQUIRE(got.size() == n, "repeated items in neighbors_to of cell ", c.id);
			all.insert(got.begin(), got.end());
			got.clear(); got_ids.clear(); n = 0;
			for (const auto& i : c.all_neighbors) entry(i.id, i.x, i.y, i.z, i.data, i);
			REQUIRE(got == all && n == all.size(), "all_neighbors iterator of cell ", c.id, " in neighborhood ", h.first);
		}
		// neighbor types
		for (int k = 0; k < 6; k++) {
			std::vector<int> crit;
			const u64 nc = 1 + r.below(3);
			for (u64 i = 0; i < nc; i++) crit.push_back(int(r.below(16)));
			const bool exact = r.chance(50);
			std::set<u64> want;
			for (const auto& t : type) {
				bool m = false;
				for (const int c : crit) if (exact ? t.second == c : (t.second & c) != 0) m = true;
				if (m) want.insert(t.first);
			}
			const std::vector<u64> cells = g.get_cells(crit, exact, h.first, true);
			REQUIRE(std::is_sorted(cells.begin(), cells.end()), "get_cells isn't sorted");
			for (const auto& i : lv.owner) {
				if (k < 2) REQUIRE(g.is_neighbor_type_match(i.first, crit, exact, h.first) == (want.count(i.first) > 0),
					"neighbor type of cell ", i.first, " in neighborhood ", h.first);
			}
			REQUIRE(to_set(cells, "get_cells()") == want, "get_cells with ", exact ? "exact" : "inexact", " criteria in neighborhood ",
				h.first, " returned ", cells.size(), " cells instead of ", want.size());
			stats.checks++;
		}
		REQUIRE(to_set(g.get_cells({}, false, h.first), "get_cells()") == local, "get_cells()");
	}
	REQUIRE(g.get_cells({}, false, 12345).empty(), "cells in unknown neighborhood");
	REQUIRE(g.get_local_cells_on_process_boundary(12345).empty(), "cells in unknown neighborhood");
	REQUIRE(g.get_local_cells_not_on_process_boundary(12345).empty(), "cells in unknown neighborhood");
	REQUIRE(g.get_remote_cells_on_process_boundary(12345).empty(), "cells in unknown neighborhood");
}

} // namespace
#endif
