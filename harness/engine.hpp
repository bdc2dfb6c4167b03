/*
Drives one dccrg grid through a history of operations and keeps a model of
what is known about it: the leaf cells and their owners as observed, the data
written by the harness, requests, pins, weights and neighborhoods.
All processes run the same operations and hold the same model.
*/
#ifndef VP_ENGINE_HPP
#define VP_ENGINE_HPP
#include "leaves.hpp"
#include "cell.hpp"

#include <mpi.h>
#include "partitioner.hpp"
#include "pmpi.hpp"
#ifdef FAULTS
// everything that must not be seen with abort replaced
#include <algorithm>
#include <array>
#include <atomic>
#include <bitset>
#include <cassert>
#include <climits>
#include <cmath>
#include <chrono>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <exception>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <queue>
#include <set>
#include <sstream>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "boost/function_types/property_tags.hpp"
#include "boost/mpl/vector.hpp"
#include "boost/tti/has_member_function.hpp"
#ifndef DCCRG_NO_LB
#include <zoltan.h>
#endif
namespace vp {
[[noreturn]] inline void aborted() { throw std::runtime_error("abort was called"); }
}
#define abort() vp::aborted()
#endif
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"
#include "dccrg_stretched_cartesian_geometry.hpp"
#include "dccrg_no_geometry.hpp"
#ifdef FAULTS
#undef abort
#endif

namespace vp {

extern Stats stats;
extern std::string prop;       // property being decided
extern bool nontrivial_case;

inline bool is(const char* p)
{
	// all of these are decided without load balancing
	if (prop == "C20") {
		const std::string q = p;
		return q == "C04" || q == "C05" || q == "C06" || q == "C07" || q == "C08" || q == "C12" || q == "C18" || q == "C20";
	}
	// and these when dccrg checks itself
	if (prop == "C21") {
		const std::string q = p;
		return q >= "C04" && (q <= "C12" || q == "C21");
	}
	// and these when memory accesses are checked
	if (prop == "C22") {
		const std::string q = p;
		return q >= "C04" && (q <= "C12" || q == "C18" || q == "C22");
	}
	return prop == p;
}
template<class... A> bool is(const char* p, A... a) { return is(p) || is(a...); }

//! user data attached to cached cells
struct Cell_Item {
	u64 item_id = 0;
	bool item_local = false;
	int item_level = -9;
	template<class Grid, class Item> void update(const Grid& grid, const Item& cell, const Cell_Item&)
	{
		item_id = cell.id;
		item_local = grid.is_local(cell.id);
		item_level = grid.get_refinement_level(cell.id);
	}
};
struct Cell_Item2 {
	u64 item2 = 0;
	template<class Grid, class Item> void update(const Grid&, const Item& cell, const Cell_Item2&)
	{
		item2 = cell.id * 2 + 1;
	}
};
//! user data attached to cached neighbors
struct Neighbor_Item {
	u64 of_cell = 0, neighbor_id = 0;
	int hood = 0;
	template<class Grid, class CItem, class NItem> void update(
		const Grid&, const CItem& cell, const NItem& neighbor, const int& hood_id, const Neighbor_Item&
	) {
		of_cell = cell.id;
		neighbor_id = neighbor.id;
		hood = hood_id;
	}
};

template<class Geom> struct Geom_Traits;
template<> struct Geom_Traits<dccrg::No_Geometry> {
	static const int id = 0;
	template<class G> static void apply(G&, const std::array<std::vector<double>, 3>&) {}
	template<class G> static void refused(G&, const std::array<std::vector<double>, 3>&, Rng&) {}
	static void coords(std::array<std::vector<double>, 3>& c, const idx3& L, u64)
	{
		for (int d = 0; d < 3; d++) for (u64 i = 0; i <= L[d]; i++) c[d].push_back(double(i));
	}
};
template<> struct Geom_Traits<dccrg::Cartesian_Geometry> {
	static const int id = 1;
	template<class G> static void apply(G& g, const std::array<std::vector<double>, 3>& c)
	{
		dccrg::Cartesian_Geometry::Parameters p;
		for (int d = 0; d < 3; d++) {
			p.start[d] = c[d][0];
			p.level_0_cell_length[d] = c[d][1] - c[d][0];
		}
		g.set_geometry(p);
	}
	//! invalid parameters
	template<class G> static void refused(G& g, const std::array<std::vector<double>, 3>&, Rng& r)
	{
		dccrg::Cartesian_Geometry::Parameters p;
		for (int d = 0; d < 3; d++) {
			p.start[d] = double(r.below(9));
			p.level_0_cell_length[d] = double(1 + r.below(9));
		}
		p.level_0_cell_length[r.below(3)] = -double(r.below(2));
		bool refused = false;
		try { g.set_geometry(p); } catch (const std::invalid_argument&) { refused = true; }
		REQUIRE(refused, "invalid geometry was accepted");
	}
	static void coords(std::array<std::vector<double>, 3>& c, const idx3& L, u64 seed)
	{
		// multiples of powers of two, exact in floating point
		Rng r(seed);
		for (int d = 0; d < 3; d++) {
			const double s = seed == 0 ? 0 : double(int(r.below(64)) - 32) / 4;
			const double l = seed == 0 ? 1 : std::ldexp(1.0 + double(r.below(8)) / 8, int(r.below(9)) - 4);
			for (u64 i = 0; i <= L[d]; i++) c[d].push_back(s + double(i) * l);
		}
	}
};
template<> struct Geom_Traits<dccrg::Stretched_Cartesian_Geometry> {
	static const int id = 2;
	template<class G> static void apply(G& g, const std::array<std::vector<double>, 3>& c)
	{
		dccrg::Stretched_Cartesian_Geometry::Parameters p;
		for (int d = 0; d < 3; d++) p.coordinates[d] = c[d];
		g.set_geometry(p);
	}
	//! invalid parameters
	template<class G> static void refused(G& g, const std::array<std::vector<double>, 3>& c, Rng& r)
	{
		dccrg::Stretched_Cartesian_Geometry::Parameters p;
		for (int d = 0; d < 3; d++) {
			p.coordinates[d] = c[d];
			for (double& x : p.coordinates[d]) x += 3;
		}
		std::vector<double>& v = p.coordinates[r.below(3)];
		switch (r.below(4)) {
		case 0: v.push_back(v.back() + 1); break;
		case 1: v.pop_back(); break;
		case 2: v.back() = v[v.size() - 2]; break;
		case 3: v[0] = v[1] + 1; break;
		}
		bool refused = false;
		try { g.set_geometry(p); } catch (const std::invalid_argument&) { refused = true; }
		REQUIRE(refused, "invalid geometry was accepted");
	}
	static void coords(std::array<std::vector<double>, 3>& c, const idx3& L, u64 seed)
	{
		Rng r(seed);
		for (int d = 0; d < 3; d++) {
			double x = seed == 0 ? 0 : double(int(r.below(64)) - 32) / 4;
			for (u64 i = 0; i <= L[d]; i++) {
				c[d].push_back(x);
				x += seed == 0 ? 1 : std::ldexp(1.0 + double(r.below(8)) / 8, int(r.below(7)) - 3);
			}
		}
	}
};

struct Config {
	int np, geom;
	idx3 L;
	bool per[3];
	unsigned hood;
	int max;
	std::string method;
	bool single;
	u64 delay, geom_seed, data_seed, comm, setup;
};

inline const std::vector<std::string>& methods()
{
	static const std::vector<std::string> m{"RCB", "RANDOM", "HSFC", "RIB", "BLOCK", "GRAPH", "HYPERGRAPH", "NONE"};
	return m;
}

inline Config decode(const Line& l)
{
	Cursor c(l);
	Config k;
	k.np = int(c.next());
	k.geom = int(c.next() % 3);
	for (int d = 0; d < 3; d++) k.L[d] = 1 + c.next() % 12;
	const u64 p = c.next();
	for (int d = 0; d < 3; d++) k.per[d] = (p >> d) & 1;
	k.hood = unsigned(c.next() % 4);
	const int max = int(c.next() % 7), possible = ref_max_possible(k.L);
	k.max = max < 5 ? std::min(max, possible) : possible - (max - 5);
	k.method = methods()[c.next() % methods().size()];
	k.single = c.flag();
	k.delay = c.next();
	for (int i = 0; i < 7; i++) transfer.layout[i] = int(c.next() % n_layouts);
	if (transfer.layout[6] == L_var) transfer.layout[6] = L_struct;
	k.geom_seed = c.next();
	k.data_seed = c.next();
	k.comm = c.next();
	k.setup = c.next();
	transfer.phase = 0;
	transfer.saving = transfer.record = false;
	transfer.calls.clear();
	return k;
}

template<class Grid, class Geom> struct Engine {
	Grid* g = nullptr;
	MPI_Comm comm;
	int rank, np;
	Config cfg;
	Leaves lv;
	std::map<int, std::vector<off3>> hoods;
	std::array<std::vector<double>, 3> coords;
	std::unordered_map<u64, Payload> data;
	// data of refined cells and removed cells and process which should have it
	std::map<u64, std::pair<int, Payload>> kept;
	std::set<u64> R, U, DR, DU, Rall;
	//! don't-refines of earlier commits, unspecified whether these are still in effect
	std::set<u64> lingering;
	std::map<u64, int> pins;
	std::map<u64, double> weights;
	u64 version = 1;
	size_t cap = 260;
	std::vector<u64> last_created;
	u64 moved_total = 0, refined_total = 0, unrefined_total = 0;

	static const int geometry = Geom_Traits<Geom>::id;

	const std::vector<off3>& hood(int id = hood_default) const { return hoods.at(id); }

	// reference neighbors of current cells in each neighborhood
	typedef std::unordered_map<u64, std::set<u64>> to_t;
	mutable std::map<int, Leaves::all_t> of_cache;
	mutable std::map<int, to_t> to_cache;
	const Leaves::all_t& all_of(int h = hood_default) const
	{
		const auto i = of_cache.find(h);
		if (i != of_cache.end()) return i->second;
		return of_cache[h] = lv.all_neighbors_of(hood(h));
	}
	const to_t& all_to(int h = hood_default) const
	{
		const auto i = to_cache.find(h);
		if (i != to_cache.end()) return i->second;
		return to_cache[h] = Leaves::invert(all_of(h));
	}

	Engine() {}

	void init(const Config& c, MPI_Comm given)
	{
		cfg = c;
		comm = given;
		MPI_Comm_rank(comm, &rank);
		MPI_Comm_size(comm, &np);
		lv.r.L = c.L;
		lv.r.max = c.max;
		for (int d = 0; d < 3; d++) {
			lv.per[d] = c.per[d];
			coords[d].clear();
		}
		Geom_Traits<Geom>::coords(coords, c.L, c.geom_seed);
		hoods[hood_default] = default_hood(c.hood);
	}

	void create()
	{
		g = new Grid;
		g->set_initial_length(cfg.L)
			.set_neighborhood_length(cfg.hood)
			.set_maximum_refinement_level(cfg.max)
			.set_load_balancing_method(cfg.method)
			.set_periodic(cfg.per[0], cfg.per[1], cfg.per[2])
			.initialize(comm);
		Geom_Traits<Geom>::apply(*g, coords);
		g->set_send_single_cells(cfg.single);
		sync();
		for (const u64 id : lv.ids) data[id];
	}

	std::vector<u64> gather(const std::vector<u64>& mine, std::vector<int>* from = nullptr) const
	{
		int n = int(mine.size());
		std::vector<int> counts(static_cast<size_t>(np)), displ(static_cast<size_t>(np));
		MPI_Allgather(&n, 1, MPI_INT, counts.data(), 1, MPI_INT, comm);
		int total = 0;
		for (size_t i = 0; i < counts.size(); i++) {
			displ[i] = total;
			total += counts[i];
		}
		std::vector<u64> all(static_cast<size_t>(total));
		MPI_Allgatherv(const_cast<u64*>(mine.data()), n, MPI_UINT64_T,
			all.data(), counts.data(), displ.data(), MPI_UINT64_T, comm);
		if (from != nullptr) {
			from->clear();
			for (int p = 0; p < np; p++) from->insert(from->end(), size_t(counts[size_t(p)]), p);
		}
		return all;
	}

	//! observes which cells exist and which process has them
	void sync()
	{
		std::vector<u64> mine = g->get_cells();
		std::vector<int> from;
		const std::vector<u64> all = gather(mine, &from);
		std::map<u64, int> o;
		for (size_t i = 0; i < all.size(); i++) {
			const bool fresh = o.insert({all[i], from[i]}).second;
			REQUIRE(fresh, "cell ", all[i], " exists on processes ", o[all[i]], " and ", from[i]);
		}
		if (o != lv.owner) {
			lv.set(o);
			of_cache.clear();
			to_cache.clear();
		}
		const std::string e = lv.tiling_error();
		REQUIRE(e.empty(), e);
		stats.checks += all.size();
	}

	bool mine(u64 id) const { return lv.owner.at(id) == rank; }

	//! selects a leaf cell
	u64 pick(u64 v, u64 prev) const
	{
		const u64 s = v % 4;
		v /= 4;
		if (s == 2) {
			// among the smallest cells, which have the largest ids
			const int top = lv.level(lv.ids.back());
			size_t b = lv.ids.size();
			while (b > 0 && lv.level(lv.ids[b - 1]) == top) b--;
			return lv.ids[b + v % (lv.ids.size() - b)];
		}
		if (s == 3 && prev != 0 && lv.has(prev)) {
			// a neighbor of the previous one
			const nlist& n = all_of().at(prev);
			if (!n.empty()) return n[v % n.size()].first;
		}
		return lv.ids[v % lv.ids.size()];
	}

	std::array<double, 3> point(u64 id, u64 v) const
	{
		const Pos p = lv.r.pos(id);
		const idx3 i = lv.r.indices(p);
		const u64 len = lv.r.len(p.lvl), l0 = lv.r.len(0);
		std::array<double, 3> ret;
		for (int d = 0; d < 3; d++) {
			const double f = 0.125 * double(1 + v % 7);
			v /= 7;
			const u64 c = i[d] / l0;
			const double a = coords[d][c], b = coords[d][c + 1];
			ret[d] = a + (b - a) * (double(i[d] % l0) + f * double(len)) / double(l0);
			if (lv.per[d] && v % 3 != 0) {
				const double period = coords[d].back() - coords[d].front();
				ret[d] += (v % 3 == 1 ? 1 : -1) * period * double(1 + v % 2);
			}
			v /= 6;
		}
		return ret;
	}

	std::array<double, 3> center(u64 id) const
	{
		const Pos p = lv.r.pos(id);
		const idx3 i = lv.r.indices(p);
		const u64 len = lv.r.len(p.lvl), l0 = lv.r.len(0);
		std::array<double, 3> ret;
		for (int d = 0; d < 3; d++) {
			const u64 c = i[d] / l0;
			const double a = coords[d][c], b = coords[d][c + 1];
			ret[d] = a + (b - a) * (double(i[d] % l0) + 0.5 * double(len)) / double(l0);
		}
		return ret;
	}

	Payload make(u64 id, u64 ver) const
	{
		Payload p;
		Rng r(mix(mix(cfg.data_seed, id), ver));
		for (int i = 0; i < 7; i++) p.w[size_t(i)] = r.next() | 1;
		p.w[7] = r.below(4);
		for (u64 i = 0; i < p.w[7]; i++) p.v.push_back(r.next() | 1);
		return p;
	}

	void set_data(u64 id)
	{
		const Payload p = make(id, version);
		data[id] = p;
		if (mine(id)) {
			auto* c = (*g)[id];
			REQUIRE(c != nullptr, "no data for local cell ", id);
			c->w = p.w;
			c->v = p.v;
		}
	}
	void set_all_data()
	{
		version++;
		for (const u64 id : lv.ids) set_data(id);
	}

	void check_local_data(const char* when) const
	{
		for (const auto& i : lv.owner) {
			if (i.second != rank) continue;
			const auto* c = (*g)[i.first];
			REQUIRE(c != nullptr, "no data for local cell ", i.first, " ", when);
			const Payload p = payload(*c);
			REQUIRE(p == data.at(i.first), "data of cell ", i.first, " is ", show(p),
				" instead of ", show(data.at(i.first)), " ", when);
			stats.checks++;
		}
	}

	//! removes an item about given cell
	void forget(u64 id)
	{
		data.erase(id);
		pins.erase(id);
		weights.erase(id);
	}

	/*
	Requests. kind: 0 refine, 1 unrefine, 2 don't refine, 3 don't unrefine
	*/
	void request(int kind, u64 cell, bool at, u64 where)
	{
		const int lvl = lv.level(cell);
		const bool own = mine(cell);
		bool ret = true;
		const std::array<double, 3> x = point(cell, where);
		// refusal known from requests made so far
		bool refused = false;
		if (kind == 0 && lvl < cfg.max) {
			if (DR.count(cell)) refused = true;
			for (const auto& n : all_of().at(cell)) {
				if (lv.level(n.first) < lvl && DR.count(n.first)) refused = true;
			}
		}
		if (own) {
			switch (kind) {
			case 0: ret = at ? g->refine_completely_at(x) : g->refine_completely(cell); break;
			case 1: ret = at ? g->unrefine_completely_at(x) : g->unrefine_completely(cell); break;
			case 2: ret = g->dont_refine(cell); break;
			case 3: ret = at ? g->dont_unrefine_at(x) : g->dont_unrefine(cell); break;
			}
		}
		switch (kind) {
		case 0:
			if (lvl == cfg.max) {
				if (lvl > 0) DU.insert(cell);
			} else {
				Rall.insert(cell);
				// a request that was refused can't take effect in any case
				R.insert(cell);
			}
			break;
		case 1: if (lvl > 0) U.insert(cell); break;
		case 2: if (lvl < cfg.max) DR.insert(cell); break;
		case 3: if (lvl > 0) DU.insert(cell); break;
		}
		if (own && is("C07")) {
			bool want = true, known = true;
			if (kind == 0) {
				// whether a dont_refine of a neighbor on another process is known already isn't specified
				if (refused) known = DR.count(cell) > 0, want = false;
				else if (lvl < cfg.max && !lingering.empty()) known = false;
			}
			if (kind == 1 && lvl > 0) {
				for (const Pos& s : lv.r.children(lv.r.parent(lv.r.pos(cell)))) {
					const u64 sibling = lv.r.id(s);
					if (!lv.has(sibling)) want = false;
					// either of true and false is documented if these have children too
					if (Rall.count(sibling) || DU.count(sibling)) known = false;
				}
			}
			if (known) REQUIRE(ret == want, "request ", kind, at ? " by coordinate" : "", " for cell ", cell,
				" of level ", lvl, " returned ", ret);
		}
	}

	//! cell whose request of given kind is related to requests made so far, or given cell
	u64 related(int kind, u64 cell, u64 n) const
	{
		const std::set<u64>& from = kind == 2 ? R : kind == 3 ? U : kind == 1 ? R : n % 2 && !DR.empty() ? DR : U;
		if (from.empty()) return cell;
		auto i = from.lower_bound(cell);
		u64 x = i == from.end() ? *from.begin() : *i;
		if (!lv.has(x)) return cell;
		n /= 2;
		if (kind == 3) {
			const u64 sibling = lv.r.id(lv.r.children(lv.r.parent(lv.r.pos(x)))[n % 8]);
			return lv.has(sibling) ? sibling : cell;
		}
		const u64 steps = kind == 1 ? 1 : 1 + n % 3;
		const bool finer = kind == 0 && &from == &DR, any = kind == 1 || &from == &U;
		for (u64 k = 0; k < steps; k++) {
			std::set<u64> next;
			for (const auto& j : all_of().at(x)) {
				const int d = lv.level(j.first) - lv.level(x);
				if (any || (finer ? d > 0 : d < 0)) next.insert(j.first);
			}
			const auto t = all_to().find(x);
			if (t != all_to().end()) for (const u64 j : t->second) {
				const int d = lv.level(j) - lv.level(x);
				if (any || (finer ? d > 0 : d < 0)) next.insert(j);
			}
			if (next.empty()) break;
			auto j = next.begin();
			std::advance(j, long(n / 3 % next.size()));
			x = *j;
			n = mix(n, k);
		}
		return x;
	}

	//! cells that are next to each other and of ever lower refinement level
	std::vector<u64> chain(u64 x, u64 n) const
	{
		std::vector<u64> ret{x};
		while (true) {
			std::set<u64> next;
			for (const auto& j : all_of().at(x)) if (lv.level(j.first) < lv.level(x)) next.insert(j.first);
			if (next.empty()) return ret;
			auto j = next.begin();
			std::advance(j, long(n % next.size()));
			ret.push_back(x = *j);
			n = mix(n, x);
		}
	}
	//! one of the longest chains that start from a cell that can be refined
	std::vector<u64> longest_chain(u64 n) const
	{
		std::vector<u64> ret;
		for (size_t i = 0; i < lv.ids.size(); i++) {
			const u64 x = lv.ids[(i + n) % lv.ids.size()];
			if (lv.level(x) == cfg.max || lv.level(x) < int(ret.size())) continue;
			const std::vector<u64> c = chain(x, n / 7);
			if (c.size() > ret.size()) ret = c;
		}
		return ret;
	}

	//! requests which must not have any effect
	void bad_request(u64 cell, u64 v)
	{
		if (!is("C07", "C04")) return;
		u64 bad = 0;
		switch (v % 4) {
		case 0: bad = 0; break;
		case 1: bad = u64(lv.r.last()) + 1 + v / 4 % 5; break;
		case 2: // has children or doesn't exist yet
			{
				const Pos p = lv.r.pos(cell);
				if (p.lvl < cfg.max) bad = lv.r.id(lv.r.children(p)[v / 4 % 8]);
				else if (p.lvl > 0) bad = lv.r.id(lv.r.parent(p));
			}
			break;
		case 3: bad = cell; break; // on another process
		}
		if (v % 4 == 3 && mine(cell)) return;
		REQUIRE(!g->refine_completely(bad), "refine_completely accepted cell ", bad);
		REQUIRE(!g->unrefine_completely(bad), "unrefine_completely accepted cell ", bad);
		if (v % 4 != 3) {
			REQUIRE(!g->dont_unrefine(bad), "dont_unrefine accepted cell ", bad);
			REQUIRE(!g->dont_refine(bad), "dont_refine accepted cell ", bad);
		}
	}

	void clear_requests()
	{
		R.clear();
		U.clear();
		DR.clear();
		DU.clear();
		Rall.clear();
	}

	void linger()
	{
		lingering.insert(DR.begin(), DR.end());
		std::vector<u64> todo(lingering.begin(), lingering.end());
		while (!todo.empty()) {
			const u64 x = todo.back();
			todo.pop_back();
			if (!lv.has(x)) continue;
			const int l = lv.level(x);
			for (const auto& n : all_of().at(x)) {
				if (lv.level(n.first) > l && lingering.insert(n.first).second) todo.push_back(n.first);
			}
			const auto t = all_to().find(x);
			if (t != all_to().end()) for (const u64 n : t->second) {
				if (lv.level(n) > l && lingering.insert(n).second) todo.push_back(n);
			}
		}
	}

	//! true if leaf is within m lengths of given cell from it
	bool near(const Pos& p, u64 leaf, int64_t m) const
	{
		const idx3 a = lv.r.indices(p);
		const int64_t la = int64_t(lv.r.len(p.lvl));
		const Pos q = lv.r.pos(leaf);
		const idx3 b = lv.r.indices(q);
		const int64_t lb = int64_t(lv.r.len(q.lvl));
		for (int d = 0; d < 3; d++) {
			const int64_t lo = int64_t(a[d]) - m * la, hi = int64_t(a[d]) + (m + 1) * la;
			const int64_t total = int64_t(lv.r.L[d] << lv.r.max);
			bool hit = false;
			const int64_t reach = lv.per[d] ? (m + 1) * la / total + 1 : 0;
			for (int64_t k = -reach; k <= reach && !hit; k++) {
				const int64_t s = int64_t(b[d]) + k * total;
				if (s < hi && s + lb > lo) hit = true;
			}
			if (!hit) return false;
		}
		return true;
	}

	//! cells that can be refined, or must be refined if certain == true
	std::set<u64> expected_refines(bool certain = false) const
	{
		std::set<u64> ret;
		if (R.empty()) return ret;
		const auto& of = all_of();
		const auto& to = all_to();
		for (const u64 r : R) {
			std::set<u64> c{r};
			std::vector<u64> todo{r};
			bool ok = true;
			while (!todo.empty()) {
				const u64 x = todo.back();
				todo.pop_back();
				if (DR.count(x) || (certain && lingering.count(x))) ok = false;
				const int l = lv.level(x);
				for (const auto& n : of.at(x)) {
					if (lv.level(n.first) < l && c.insert(n.first).second) todo.push_back(n.first);
				}
				const auto t = to.find(x);
				if (t != to.end()) for (const u64 n : t->second) {
					if (lv.level(n) < l && c.insert(n).second) todo.push_back(n);
				}
			}
			if (ok) ret.insert(c.begin(), c.end());
		}
		return ret;
	}

	void stop(bool sorted)
	{
		const Leaves old = lv;
		const std::set<u64> want = is("C07") ? expected_refines() : std::set<u64>();
		const std::set<u64> must = is("C07") ? expected_refines(true) : std::set<u64>();
		linger();
		const std::vector<u64> created = g->stop_refining(sorted);
		last_created = created;
		sync();

		// what happened
		std::set<u64> refined, parents;
		for (const u64 id : old.ids) {
			if (lv.has(id)) continue;
			const Pos p = old.r.pos(id);
			if (p.lvl < cfg.max && lv.has(old.r.id(old.r.children(p)[0]))) refined.insert(id);
			else if (p.lvl > 0 && lv.has(old.r.id(old.r.parent(p)))) parents.insert(old.r.id(old.r.parent(p)));
			else REQUIRE(false, "refinement level of cell ", id, " changed by more than one");
		}
		for (const u64 id : lv.ids) {
			if (old.has(id)) continue;
			const Pos p = lv.r.pos(id);
			const bool from_parent = p.lvl > 0 && refined.count(lv.r.id(lv.r.parent(p)));
			REQUIRE(from_parent || parents.count(id), "refinement level of cell ", id, " changed by more than one");
		}
		refined_total += refined.size();
		unrefined_total += parents.size();

		if (is("C07")) {
			for (const u64 id : must) {
				REQUIRE(refined.count(id), "cell ", id, " should have been refined",
					R.count(id) ? "" : " (induced)");
			}
			for (const u64 id : refined) {
				REQUIRE(want.count(id), "cell ", id, " of refinement level ", old.level(id), " should not have been refined");
			}
			std::set<u64> asked;
			for (const u64 id : U) asked.insert(old.r.id(old.r.parent(old.r.pos(id))));
			for (const u64 id : parents) {
				REQUIRE(asked.count(id), "children of cell ", id, " were removed without a request");
				for (const Pos& s : old.r.children(old.r.pos(id))) {
					const u64 c = old.r.id(s);
					REQUIRE(!DU.count(c), "cell ", c, " was removed in spite of dont_unrefine");
					REQUIRE(!R.count(c) || lingering.size() > 0, "cell ", c, " was removed in spite of a request to refine it");
				}
			}
			for (const u64 id : asked) {
				if (parents.count(id)) continue;
				// is there any reason for not removing the children
				const Pos p = old.r.pos(id);
				bool reason = false;
				for (const Pos& s : old.r.children(p)) {
					const u64 c = old.r.id(s);
					if (!old.has(c) || Rall.count(c) || DU.count(c)) reason = true;
				}
				for (const u64 leaf : old.ids) {
					if (reason) break;
					if (!near(p, leaf, std::max(1, int(cfg.hood)))) continue;
					const int l = old.level(leaf);
					if (l > p.lvl + 1) reason = true;
					if (l == p.lvl + 1 && (Rall.count(leaf) || want.count(leaf))) reason = true;
				}
				REQUIRE(reason, "children of cell ", id, " were not removed in spite of a request");
			}
			stats.label("cells refined", refined.size());
			stats.label("families of cells unrefined", parents.size());
			stats.label("refines induced", [&]() { u64 n = 0; for (const u64 r : refined) if (!R.count(r)) n++; return n; }());
			stats.label("refines prevented", [&]() { u64 n = 0; for (const u64 r : R) if (!refined.count(r)) n++; return n; }());
			if (!refined.empty() || !parents.empty()) nontrivial_case = true;
		}

		// model of data
		kept.clear();
		std::set<u64> mine_created;
		std::map<u64, double> child_weights;
		std::map<u64, int> child_pins;
		for (const u64 id : refined) {
			kept[id] = {old.owner.at(id), data.at(id)};
			for (const Pos& s : old.r.children(old.r.pos(id))) {
				const u64 c = old.r.id(s);
				if (pins.count(id)) child_pins[c] = pins[id];
				if (weights.count(id)) child_weights[c] = weights[id];
				if (is("C07")) REQUIRE(lv.owner.at(c) == old.owner.at(id), "child ", c,
					" is not on the process of its parent ", id);
				if (lv.owner.at(c) == rank) mine_created.insert(c);
			}
		}
		std::set<u64> mine_removed;
		for (const u64 id : parents) {
			const int to = lv.owner.at(id);
			for (const Pos& s : old.r.children(old.r.pos(id))) {
				const u64 c = old.r.id(s);
				Payload p = data.at(c);
				if (old.owner.at(c) != to) {
					p = Payload();
					overlay(mask_of(transfer.layout[6], 0), data.at(c), p);
				}
				kept[c] = {to, p};
				if (to == rank) mine_removed.insert(c);
			}
		}
		for (const u64 id : old.ids) if (!lv.has(id)) forget(id);
		for (const u64 id : lv.ids) if (!old.has(id)) data[id];
		for (const auto& i : child_weights) weights[i.first] = i.second;
		for (const auto& i : child_pins) pins[i.first] = i.second;
		clear_requests();

		if (is("C07")) {
			if (sorted) REQUIRE(std::is_sorted(created.begin(), created.end()), "created cells are not sorted");
			REQUIRE(created.size() == mine_created.size()
				&& std::set<u64>(created.begin(), created.end()) == mine_created,
				"stop_refining returned ", created.size(), " created cells instead of ", mine_created.size());
			const std::vector<u64> removed = g->get_removed_cells(sorted);
			if (sorted) REQUIRE(std::is_sorted(removed.begin(), removed.end()), "removed cells are not sorted");
			REQUIRE(removed.size() == mine_removed.size()
				&& std::set<u64>(removed.begin(), removed.end()) == mine_removed,
				"get_removed_cells returned ", removed.size(), " cells instead of ", mine_removed.size());
			check_local_data("after stop_refining");
			check_kept();
			check_weights();
		}
	}

	void check_kept() const
	{
		for (const auto& i : kept) {
			if (i.second.first != rank) continue;
			const auto* c = (*g)[i.first];
			REQUIRE(c != nullptr, "no data for refined or removed cell ", i.first);
			const Payload p = payload(*c);
			REQUIRE(p == i.second.second, "data of refined or removed cell ", i.first, " is ", show(p),
				" instead of ", show(i.second.second));
		}
	}
	void clear_kept()
	{
		g->clear_refined_unrefined_data();
		if (is("C07")) {
			for (const auto& i : kept) {
				REQUIRE((*g)[i.first] == nullptr, "data of cell ", i.first, " wasn't removed");
			}
			REQUIRE(g->get_removed_cells().empty(), "removed cells exist after removing their data");
			check_local_data("after clear_refined_unrefined_data");
		}
		kept.clear();
	}
	void check_weights() const
	{
		for (const u64 id : lv.ids) {
			const double w = g->get_cell_weight(id);
			if (!mine(id)) {
				REQUIRE(w != w, "weight of remote cell ", id, " is ", w);
				continue;
			}
			const auto i = weights.find(id);
			const double want = i == weights.end() ? 1.0 : i->second;
			REQUIRE(w == want, "weight of cell ", id, " is ", w, " instead of ", want);
			stats.checks++;
		}
	}
	u64 parent_or_none(u64 id) const
	{
		const Pos p = lv.r.pos(id);
		return p.lvl > 0 ? u64(lv.r.id(lv.r.parent(p))) : 0;
	}
	void set_weight(u64 id, double w)
	{
		const bool ok = g->set_cell_weight(id, w);
		if (is("C07", "C09")) {
			REQUIRE(ok == mine(id), "set_cell_weight of cell ", id, " returned ", ok);
			// only existing cells without children have a weight
			for (const u64 bad : {u64(0), parent_or_none(id), u64(lv.r.last()) + 1}) {
				REQUIRE(!g->set_cell_weight(bad, w), "weight of cell ", bad, " which doesn't exist or has children was set");
				const double got = g->get_cell_weight(bad);
				REQUIRE(got != got, "weight of cell ", bad, " which doesn't exist or has children is ", got);
			}
		}
		weights[id] = w;
	}

	/*
	Load balancing. steps: 0 balance_load(), otherwise steps - 1 calls to continue_balance_load()
	*/
	void balance(bool zoltan, unsigned steps, u64 fake = 0)
	{
		#ifdef DCCRG_NO_LB
		// does nothing
		(void) fake;
		const std::map<u64, int> owners = lv.owner;
		if (steps == 0) {
			g->balance_load(zoltan);
		} else {
			g->initialize_balance_load(zoltan);
			for (unsigned i = 1; i < steps; i++) g->continue_balance_load();
			g->finish_balance_load();
		}
		REQUIRE(g->get_cells_added_by_balance_load().empty() && g->get_cells_removed_by_balance_load().empty(), "cells were moved");
		sync();
		REQUIRE(lv.owner == owners, "load balancing changed the grid");
		check_local_data("after load balancing");
		check_weights();
		check_kept();
		stats.label("balances without effect");
		return;
		#endif
		// ids larger than those of Zoltan are not supported, here these have 32 bits
		if (sizeof(ZOLTAN_ID_TYPE) < 8 && (lv.ids.back() >> 32) != 0) {
			zoltan = false;
			stats.label("ids too large for Zoltan");
		}
		const Leaves old = lv;
		partitioner.rank = rank;
		partitioner.fake = fake != 0;
		partitioner.exported.clear();
		partitioner.imported.clear();
		partitioner.now = lv.owner;
		partitioner.next = fake == 0 ? lv.owner : make_partition(fake);
		const u64 partitioned0 = partitioner.calls;
		const int layout = transfer.layout[5];
		std::set<u64> added, removed;
		mask_t m = 0;
		transfer.phase = 0;
		bool split = false;
		if (layout == L_var) {
			split = true;
			g->initialize_balance_load(zoltan);
			note_moves(added, removed);
			g->continue_balance_load();
			for (const u64 id : added) {
				auto* c = (*g)[id];
				REQUIRE(c != nullptr, "no data for arriving cell ", id);
				c->v.resize(c->w[7]);
			}
			transfer.phase = 1;
			g->continue_balance_load();
			g->finish_balance_load();
			transfer.phase = 0;
			m = 0x180;
		} else if (steps == 0) {
			g->balance_load(zoltan);
			m = mask_of(layout, 0);
		} else {
			split = true;
			g->initialize_balance_load(zoltan);
			note_moves(added, removed);
			for (unsigned i = 1; i < steps; i++) {
				g->continue_balance_load();
				m = mask_of(layout, 0);
			}
			g->finish_balance_load();
		}
		sync();
		clear_requests();
		lingering.clear();
		kept.clear();
		partitioner.fake = false;
		REQUIRE(lv.ids == old.ids, "load balancing changed existing cells");
		if (is("C09", "C10", "C17")) check_partition(old, zoltan, partitioner.calls > partitioned0);
		std::set<u64> want_added, want_removed;
		u64 moved = 0;
		for (const u64 id : lv.ids) {
			const int a = old.owner.at(id), b = lv.owner.at(id);
			if (a == b) continue;
			moved++;
			if (a == rank) want_removed.insert(id);
			if (b == rank) want_added.insert(id);
			Payload p;
			overlay(m, data.at(id), p);
			data[id] = p;
		}
		weights.clear();
		moved_total += moved;
		stats.label("cells moved", moved);
		if (moved > 0) nontrivial_case = nontrivial_case || is("C09", "C04", "C10");
		if (is("C09")) {
			if (split) {
				REQUIRE(added == want_added, "cells announced to arrive differ from cells that arrived");
				REQUIRE(removed == want_removed, "cells announced to leave differ from cells that left");
			}
			check_local_data("after load balancing");
			check_weights();
			REQUIRE(g->get_removed_cells().empty(), "removed cells exist after load balancing");
			check_no_copies();
			for (const u64 id : lv.ids) {
				if (np == 1) REQUIRE(mine(id), "cell ", id, " left the only process");
			}
		}
		// pins
		for (const auto& p : pins) {
			if (is("C10")) {
				REQUIRE(lv.owner.at(p.first) == p.second, "cell ", p.first, " pinned to process ", p.second,
					" is on process ", lv.owner.at(p.first));
				stats.label("pinned cells checked");
			}
		}
		if (is("C10")) {
			// those that still exist
			std::map<u64, int> now;
			for (const auto& i : g->get_pin_requests()) if (lv.has(i.first)) now[i.first] = int(i.second);
			REQUIRE(now == pins, "number of pinned cells is ", now.size(), " instead of ", pins.size());
			REQUIRE(g->get_new_pin_requests().empty(), "unhandled pins after load balancing");
		}
		if (!zoltan && is("C10", "C09")) {
			for (const u64 id : lv.ids) {
				if (pins.count(id)) continue;
				REQUIRE(old.owner.at(id) == lv.owner.at(id), "cell ", id, " was moved without Zoltan and without a pin");
			}
		}
	}
	//! data of copies of remote cells must not outlive load balancing
	void check_no_copies() const
	{
		const auto& of = all_of();
		const auto& to = all_to();
		const Payload nothing;
		for (const u64 id : lv.ids) {
			if (mine(id)) continue;
			const auto* c = (*g)[id];
			if (c == nullptr) continue;
			bool neighbor = false;
			for (const auto& n : of.at(id)) if (mine(n.first)) neighbor = true;
			const auto t = to.find(id);
			if (t != to.end()) for (const u64 n : t->second) if (mine(n)) neighbor = true;
			REQUIRE(neighbor, "data of remote cell ", id, " which isn't a neighbor exists after load balancing");
			REQUIRE(payload(*c) == nothing, "copy of remote cell ", id, " is ", show(payload(*c)), " after load balancing");
			stats.checks++;
		}
	}
	//! generated new processes of all cells
	std::map<u64, int> make_partition(u64 seed) const
	{
		std::map<u64, int> ret;
		Rng r(mix(seed, lv.ids.size()));
		const u64 kind = r.below(6), percent = 5 + r.below(95);
		const int target = int(r.below(u64(np)));
		for (const auto& i : lv.owner) {
			int to = int(r.below(u64(np)));
			const bool move = r.chance(unsigned(percent));
			switch (kind) {
			case 0: to = target; break;                        // everything on one process
			case 1: to = (i.second + 1) % np; break;           // everything moves
			case 2: to = i.second == target ? (target + 1) % np : i.second; break; // one process loses everything
			case 3: if (!move || to != target) to = i.second; break;
			default: if (!move) to = i.second;
			}
			ret[i.first] = to;
		}
		return ret;
	}
	//! whether cells are where partitioner and pins put them
	void check_partition(const Leaves& old, bool zoltan, bool seen)
	{
		if (zoltan && !seen) {
			stats.label("partitioning not seen");
			return;
		}
		std::vector<u64> out;
		for (const auto& i : partitioner.exported) {
			out.push_back(i.first);
			out.push_back(u64(i.second));
		}
		const std::vector<u64> all = gather(out);
		std::map<u64, int> want = old.owner;
		if (zoltan) for (size_t i = 0; i + 1 < all.size(); i += 2) want[all[i]] = int(all[i + 1]);
		for (const auto& i : pins) want[i.first] = i.second;
		for (const auto& i : want) {
			REQUIRE(lv.owner.at(i.first) == i.second, "cell ", i.first, " is on process ", lv.owner.at(i.first),
				" instead of ", i.second, ", was on ", old.owner.at(i.first),
				pins.count(i.first) ? ", is pinned" : "");
			stats.checks++;
		}
	}
	void note_moves(std::set<u64>& added, std::set<u64>& removed)
	{
		const auto& a = g->get_cells_added_by_balance_load();
		const auto& r = g->get_cells_removed_by_balance_load();
		added.insert(a.begin(), a.end());
		removed.insert(r.begin(), r.end());
	}

	void pin(u64 cell, u64 v)
	{
		#ifdef DCCRG_NO_LB
		REQUIRE(!g->pin(cell) && !g->pin(cell, int(v % u64(np))), "pin succeeded");
		return;
		#endif
		const int p = int(v % u64(np));
		const bool self = v / u64(np) % 4 == 0;
		if (v / u64(np) % 7 == 6 && is("C10")) {
			// invalid
			REQUIRE(!g->pin(cell, np + int(v % 3)), "pin to a process that doesn't exist succeeded");
			REQUIRE(!g->pin(cell, -1), "pin to process -1 succeeded");
			REQUIRE(!g->pin(0), "pin of error_cell succeeded");
			REQUIRE(!g->pin(u64(lv.r.last()) + 1, 0), "pin of a cell outside of the grid succeeded");
			if (const u64 parent = parent_or_none(cell)) {
				REQUIRE(!g->pin(parent) && !g->pin(parent, p) && !g->pin(parent, np), "pin of a cell with children succeeded");
				REQUIRE(!g->unpin(parent), "unpin of a cell with children succeeded");
			}
			if (!mine(cell)) {
				REQUIRE(!g->pin(cell, p), "pin of a remote cell succeeded");
				REQUIRE(!g->pin(cell), "pin of a remote cell succeeded");
				REQUIRE(!g->unpin(cell), "unpin of a remote cell succeeded");
			}
			return;
		}
		if (mine(cell)) {
			const bool ok = self ? g->pin(cell) : g->pin(cell, p);
			REQUIRE(ok, "pin of local cell ", cell, " failed");
		}
		pins[cell] = self ? lv.owner.at(cell) : p;
	}
	void unpin(u64 cell, u64 v)
	{
		#ifdef DCCRG_NO_LB
		REQUIRE(!g->unpin(cell) && !g->unpin_local_cells(), "unpin succeeded");
		if (v % 8 == 0) g->unpin_all_cells();
		return;
		#endif
		if (v % 8 == 0) {
			g->unpin_all_cells();
			pins.clear();
		} else if (v % 8 == 1) {
			// all cells of one process
			const int p = int(v / 8 % u64(np));
			if (p == rank) REQUIRE(g->unpin_local_cells(), "unpin_local_cells failed");
			for (const u64 id : lv.ids) {
				if (lv.owner.at(id) == p) {
					pins.erase(id);
				}
			}
		} else {
			if (mine(cell)) REQUIRE(g->unpin(cell), "unpin of local cell ", cell, " failed");
			pins.erase(cell);
		}
	}

	void add_hood(u64 which, u64 bits, u64 bad)
	{
		static const int ids[3] = {1, 0, -7};
		const int id = ids[which % 3];
		const auto& all = hood();
		std::vector<off3> items;
		Rng r(bits);
		const u64 percent = 5 + bits % 70;
		for (const auto& h : all) if (r.chance(unsigned(percent))) items.push_back(h);
		if (items.empty()) items.push_back(all[bits % all.size()]);
		// user given order
		if (bits % 3 == 0) std::reverse(items.begin(), items.end());
		if (bad % 5 == 4) {
			std::vector<off3> b = items;
			switch (bad / 5 % 3) {
			case 0: b.push_back({{0, 0, 0}}); break;
			case 1: b.push_back({{int(std::max(1u, cfg.hood)) + 1, 0, 0}}); break;
			case 2: b.push_back({{0, -int(std::max(1u, cfg.hood)) - 1, 1}}); break;
			}
			if (hoods.count(id) == 0) {
				const bool ok = g->add_neighborhood(id, b);
				REQUIRE(!ok, "invalid neighborhood was accepted");
			}
			REQUIRE(!g->add_neighborhood(hood_default, items), "default neighborhood id was accepted");
		}
		const bool exists = hoods.count(id) > 0;
		const bool ok = g->add_neighborhood(id, items);
		REQUIRE(ok == !exists, "add_neighborhood of ", exists ? "existing" : "new", " id returned ", ok);
		if (!exists) {
			hoods[id] = items;
			of_cache.erase(id);
			to_cache.erase(id);
		}
	}
	void remove_hood(u64 which)
	{
		static const int ids[3] = {1, 0, -7};
		remove_hood_id(ids[which % 3]);
	}
	void remove_hood_id(int id)
	{
		g->remove_neighborhood(id);
		hoods.erase(id);
	}
	int some_hood(u64 v) const
	{
		auto i = hoods.begin();
		std::advance(i, long(v % hoods.size()));
		return i->first;
	}

	/*
	Updates of copies of remote neighbors
	*/
	void update(int h, u64 style)
	{
		const bool check = is("C08");
		const Leaves::all_t of = all_of(h);
		std::set<u64> receive;                   // cells received by this process
		std::set<std::pair<u64, int>> send;      // cells sent by this process and receiver
		u64 all_pairs = 0;
		for (const auto& i : of) {
			const int to = lv.owner.at(i.first);
			for (const auto& n : i.second) {
				const int from = lv.owner.at(n.first);
				if (from == to) continue;
				all_pairs++;
				if (to == rank) receive.insert(n.first);
				if (from == rank) send.insert({n.first, to});
			}
		}
		// contents of existing copies
		std::map<u64, Payload> copies;
		for (const u64 id : lv.ids) {
			if (mine(id)) continue;
			const auto* c = (*g)[id];
			if (c != nullptr) copies[id] = payload(*c);
		}
		if (check) {
			REQUIRE(g->get_number_of_update_send_cells(h) == send.size(), "number of cells to send is ",
				g->get_number_of_update_send_cells(h), " instead of ", send.size(), " in neighborhood ", h);
			REQUIRE(g->get_number_of_update_receive_cells(h) == receive.size(), "number of cells to receive is ",
				g->get_number_of_update_receive_cells(h), " instead of ", receive.size(), " in neighborhood ", h);
			REQUIRE(g->get_number_of_update_send_cells(12345) == ~u64(0), "cells to send in unknown neighborhood");
			REQUIRE(g->get_number_of_update_receive_cells(12345) == ~u64(0), "cells to receive in unknown neighborhood");
			if (style / 16 % 8 == 7) {
				REQUIRE(!g->update_copies_of_remote_neighbors(12345), "update of unknown neighborhood succeeded");
			}
		}
		const int layout = transfer.get(h);
		const int phases = layout == L_var ? 2 : 1;
		mask_t m = 0;
		for (int phase = 0; phase < phases; phase++) {
			transfer.phase = phase;
			m |= mask_of(layout, phase);
			if (phase == 1) {
				for (const u64 id : receive) {
					auto* c = (*g)[id];
					REQUIRE(c != nullptr, "no copy of remote neighbor ", id);
					REQUIRE(c->w[7] < 100, "wrong size ", c->w[7], " received for cell ", id);
					c->v.resize(c->w[7]);
				}
			}
			transfer.calls.clear();
			transfer.record = true;
			bool ok = true;
			switch (style % 4) {
			case 0: ok = g->update_copies_of_remote_neighbors(h); break;
			case 1:
				ok = g->start_remote_neighbor_copy_updates(h);
				overlap(h, of, style);
				ok = g->wait_remote_neighbor_copy_updates(h) && ok;
				break;
			case 2:
				ok = g->start_remote_neighbor_copy_receives(h);
				ok = g->start_remote_neighbor_copy_sends(h) && ok;
				overlap(h, of, style);
				ok = g->wait_remote_neighbor_copy_update_receives(h) && ok;
				if (check) REQUIRE(handles.pending(false) == 0, handles.pending(false), " messages are being received after waiting for receives");
				if (check && phase + 1 == phases) {
					transfer.record = false;
					check_copies(receive, copies, m, h);
					transfer.record = true;
				}
				ok = g->wait_remote_neighbor_copy_update_sends() && ok;
				break;
			case 3:
				ok = g->start_remote_neighbor_copy_updates(h);
				ok = g->wait_remote_neighbor_copy_update_sends() && ok;
				if (check) REQUIRE(handles.pending(true) == 0, handles.pending(true), " messages are being sent after waiting for sends");
				overlap(h, of, style);
				ok = g->wait_remote_neighbor_copy_update_receives(h) && ok;
				break;
			}
			transfer.record = false;
			if (check) {
				REQUIRE(handles.requests.empty(), handles.requests.size(), " messages are underway after an update");
				REQUIRE(ok, "update of copies of remote neighbors failed in neighborhood ", h);
				std::set<u64> called_r;
				std::set<std::pair<u64, int>> called_s;
				for (const Call& c : transfer.calls) {
					REQUIRE(c.hood == h, "datatype asked with neighborhood ", c.hood, " instead of ", h);
					REQUIRE(lv.has(c.cell), "datatype asked for cell ", c.cell);
					REQUIRE(c.sender == lv.owner.at(c.cell), "wrong sender ", c.sender, " of cell ", c.cell);
					if (c.receiving) {
						REQUIRE(c.receiver == rank, "wrong receiver ", c.receiver);
						called_r.insert(c.cell);
					} else {
						called_s.insert({c.cell, c.receiver});
					}
				}
				REQUIRE(called_r == receive, "received cells aren't those considered as neighbors by local cells");
				REQUIRE(called_s == send, "sent cells aren't those considered as neighbors by remote cells");
			}
		}
		transfer.phase = 0;
		if (check) {
			check_copies(receive, copies, m, h);
			check_local_data("after update of copies of remote neighbors");
			u64 both[2] = {receive.size(), 0};
			MPI_Allreduce(&both[0], &both[1], 1, MPI_UINT64_T, MPI_SUM, comm);
			if (both[1] > 0) nontrivial_case = true;
			stats.label("copies updated", both[1]);
			stats.label(cat("updates with datatype ", layout));
		}
	}

	//! work that users overlap with communication: data of cells that aren't being sent changes
	void overlap(int, const Leaves::all_t& of, u64 style)
	{
		if (style / 4 % 4 != 3) return;
		std::set<u64> busy;
		for (const auto& i : of) {
			for (const auto& n : i.second) {
				if (lv.owner.at(n.first) != lv.owner.at(i.first)) busy.insert(n.first);
			}
		}
		version++;
		for (const u64 id : lv.ids) if (!busy.count(id)) set_data(id);
	}

	void check_copies(const std::set<u64>& receive, const std::map<u64, Payload>& before, mask_t m, int h) const
	{
		for (const u64 id : lv.ids) {
			if (mine(id)) continue;
			const auto* c = (*g)[id];
			if (!receive.count(id)) {
				const auto b = before.find(id);
				if (c != nullptr && b != before.end()) {
					REQUIRE(payload(*c) == b->second, "copy of cell ", id, " changed by update in neighborhood ", h);
				}
				continue;
			}
			REQUIRE(c != nullptr, "no copy of remote neighbor ", id, " after update in neighborhood ", h);
			const Payload p = payload(*c);
			Payload want;
			const auto b = before.find(id);
			if (b != before.end()) want = b->second;
			overlay(m, data.at(id), want);
			REQUIRE(p == want, "copy of cell ", id, " is ", show(p), " instead of ", show(want),
				" after update in neighborhood ", h);
			stats.checks++;
		}
	}
};

} // namespace
#endif
