/*
Reference geometry of the set of existing (leaf) cells, independent of dccrg:
everything is decided from the ids of the leaf cells, the length of the grid,
the maximum refinement level and the periodicity.
*/
#ifndef VP_LEAVES_HPP
#define VP_LEAVES_HPP
#include "refmap.hpp"

namespace vp {

typedef std::array<int, 3> off3;
typedef std::vector<std::pair<u64, off3>> nlist;

struct Leaves {
	RefMap r;
	bool per[3];
	std::map<u64, int> owner; // leaf cell -> process
	std::vector<u64> ids;     // sorted
	std::unordered_set<u64> has_;

	void set(const std::map<u64, int>& o)
	{
		owner = o;
		ids.clear();
		has_.clear();
		for (const auto& i : owner) {
			ids.push_back(i.first);
			has_.insert(i.first);
		}
	}
	bool has(u64 id) const { return has_.count(id) > 0; }
	size_t size() const { return ids.size(); }
	int level(u64 id) const { return r.pos(id).lvl; }

	//! leaf cell covering given indices, 0 if there is none
	u64 at(const idx3& i) const
	{
		for (int l = 0; l <= r.max; l++) {
			const u64 id = r.id(r.at(i, l));
			if (has(id)) return id;
		}
		return 0;
	}

	//! empty if leaf cells tile the grid exactly
	std::string tiling_error() const
	{
		u128 vol = 0;
		for (const u64 id : ids) {
			if (!r.valid(id)) return cat("cell ", id, " cannot exist in the grid");
			Pos p = r.pos(id);
			u128 l = r.len(p.lvl);
			vol += l * l * l;
			while (p.lvl > 0) {
				p = r.parent(p);
				if (has(r.id(p))) return cat("cells ", r.id(p), " and ", id, " overlap");
			}
		}
		const u128 l0 = r.len(0);
		const u128 want = u128(r.L[0]) * r.L[1] * r.L[2] * l0 * l0 * l0;
		if (vol != want) return "cells without children do not cover the whole grid";
		return "";
	}

	void descend(const Pos& p, const std::array<int64_t, 3>& shift, const idx3& me, nlist& out) const
	{
		const u64 id = r.id(p);
		if (has(id) || p.lvl == r.max) {
			const idx3 i = r.indices(p);
			off3 o;
			for (int d = 0; d < 3; d++) o[d] = int(int64_t(i[d]) + shift[d] - int64_t(me[d]));
			out.push_back({id, o});
			return;
		}
		for (const Pos& c : r.children(p)) descend(c, shift, me, out);
	}

	//! documented neighbors of a cell in given neighborhood, in order
	nlist neighbors_of(u64 cell, const std::vector<off3>& hood) const
	{
		nlist ret;
		const Pos p = r.pos(cell);
		const idx3 me = r.indices(p);
		const int64_t len = int64_t(r.len(p.lvl));
		for (const off3& h : hood) {
			idx3 w;
			std::array<int64_t, 3> shift;
			bool out = false;
			for (int d = 0; d < 3; d++) {
				const int64_t total = int64_t(r.L[d] << r.max), t = int64_t(me[d]) + h[d] * len;
				int64_t m = ((t % total) + total) % total;
				if (m != t && !per[d]) { out = true; break; }
				w[d] = u64(m);
				shift[d] = t - m;
			}
			if (out) continue;
			// a leaf at least as large as the cell
			bool found = false;
			for (int l = 0; l <= p.lvl; l++) {
				const Pos q = r.at(w, l);
				const u64 id = r.id(q);
				if (has(id)) {
					const idx3 i = r.indices(q);
					off3 o;
					for (int d = 0; d < 3; d++) o[d] = int(int64_t(i[d]) + shift[d] - int64_t(me[d]));
					ret.push_back({id, o});
					found = true;
					break;
				}
			}
			if (!found) descend(r.at(w, p.lvl), shift, me, ret);
		}
		return ret;
	}

	typedef std::unordered_map<u64, nlist> all_t;
	all_t all_neighbors_of(const std::vector<off3>& hood) const
	{
		all_t ret;
		for (const u64 id : ids) ret[id] = neighbors_of(id, hood);
		return ret;
	}
	static std::unordered_map<u64, std::set<u64>> invert(const all_t& of)
	{
		std::unordered_map<u64, std::set<u64>> ret;
		for (const auto& i : of) {
			for (const auto& n : i.second) ret[n.first].insert(i.first);
		}
		return ret;
	}

	/*!
	Empty if no leaf within the neighborhood of another leaf differs from it
	by more than one refinement level.
	*/
	std::string balance_error(const std::vector<off3>& hood) const
	{
		for (const u64 id : ids) {
			const int l = level(id);
			for (const auto& n : neighbors_of(id, hood)) {
				const int k = level(n.first);
				if (k > l + 1 || k < l - 1) {
					return cat("cell ", id, " of refinement level ", l, " has neighbor ",
						n.first, " of refinement level ", k);
				}
			}
		}
		return "";
	}
};

inline std::vector<off3> default_hood(unsigned n)
{
	std::vector<off3> h;
	if (n == 0) {
		h = {{{0, 0, -1}}, {{0, -1, 0}}, {{-1, 0, 0}}, {{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}};
		return h;
	}
	const int m = int(n);
	for (int z = -m; z <= m; z++)
	for (int y = -m; y <= m; y++)
	for (int x = -m; x <= m; x++) {
		if (x != 0 || y != 0 || z != 0) h.push_back({{x, y, z}});
	}
	return h;
}

} // namespace
#endif
