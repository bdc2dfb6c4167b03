/*
Generated histories of operations on a distributed grid, decided against the
reference model in engine.hpp, leaves.hpp and checks.hpp.

Started with mpiexec, all processes run the same cases.
GEOM: 0 No_Geometry, 1 Cartesian_Geometry, 2 Stretched_Cartesian_Geometry
*/
#include "pmpi.hpp"
#include <sys/stat.h>
#include "globals.hpp"
#include "checks.hpp"
#include "files.hpp"
#ifdef FAULTS
#include "faults.hpp"
#endif
#include "copies.hpp"
#include "reference.hpp"
#include "partition.hpp"
#include "queries.hpp"
#include "setup.hpp"

#ifndef GEOM
#define GEOM 1
#endif

using namespace vp;

namespace vp {
Transfer transfer;
Partitioner partitioner;
}

#if GEOM == 0
typedef dccrg::No_Geometry Geom;
#elif GEOM == 1
typedef dccrg::Cartesian_Geometry Geom;
#else
typedef dccrg::Stretched_Cartesian_Geometry Geom;
#endif

template<class C, class G> using grid_t = dccrg::Dccrg<C, G, std::tuple<Cell_Item, Cell_Item2>, std::tuple<Neighbor_Item>>;
typedef grid_t<CellT<0>, Geom> Grid;
typedef Engine<Grid, Geom> E;

enum Op {
	REQ, STOP, CLEAR, BALANCE, PIN, UNPIN, ADDHOOD, REMHOOD, SETDATA, UPDATE, SINGLE, WEIGHT,
	OPTION, SAVELOAD, LOADCELLS, COPY, COMPUTE, BADREQ, LAYOUT, SUBSET, DIVE, LEVEL, CHAIN, FAULT, SCATTER, n_ops
};

static unsigned times_checked = 0;

static void structural(E& e, u64 salt)
{
	if (prop == "C20" || prop == "C21" || prop == "C22") {
		// one after another
		switch ((salt + times_checked++) % 4) {
		case 0: {
			check_ownership(e, salt);
			const std::string m = e.lv.balance_error(e.hood());
			REQUIRE(m.empty(), m);
			break;
		}
		case 1: check_neighbors(e); break;
		case 2: check_iterators(e, salt); break;
		case 3:
			// stops in builds with DEBUG
			if (is("C18")) check_queries(e, salt);
			break;
		}
		if (e.np > 1 && e.lv.level(e.lv.ids.back()) > e.lv.level(e.lv.ids.front())) nontrivial_case = true;
		return;
	}
	if (is("C04", "C19")) check_ownership(e, salt);
	if (is("C05")) {
		const std::string m = e.lv.balance_error(e.hood());
		REQUIRE(m.empty(), m);
		stats.checks += e.lv.size();
		int lo = 99, hi = -1;
		for (const u64 id : e.lv.ids) {
			lo = std::min(lo, e.lv.level(id));
			hi = std::max(hi, e.lv.level(id));
		}
		if (hi - lo >= 2) nontrivial_case = true;
	}
	if (is("C06", "C19")) check_neighbors(e);
	if (is("C12", "C19")) check_iterators(e, salt);
	if (is("C18")) check_queries(e, salt);
	if (is("C04", "C06") && e.np > 1) {
		int lo = 99, hi = -1;
		for (const u64 id : e.lv.ids) {
			lo = std::min(lo, e.lv.level(id));
			hi = std::max(hi, e.lv.level(id));
		}
		if (hi > lo) nontrivial_case = true;
	}
}

//! processes which take part in a grid
struct Group {
	MPI_Comm comm = MPI_COMM_WORLD;
	int color = 0;
	//! 0: all, otherwise all in another order, some or separate groups of processes
	explicit Group(u64 v)
	{
		if (v == 0) return;
		Rng r(v);
		int np;
		MPI_Comm_size(MPI_COMM_WORLD, &np);
		const u64 kind = r.below(3);
		int key = 0;
		const u64 left_out = r.below(u64(np));
		for (int p = 0; p < np; p++) {
			const int c = kind == 0 ? 0 : int(r.below(2)), k = int(r.below(1000));
			if (p != world_rank) continue;
			color = kind == 2 ? (u64(p) == left_out && np > 1 ? MPI_UNDEFINED : 0) : c;
			key = k;
		}
		MPI_Comm_split(MPI_COMM_WORLD, color, key, &comm);
	}
	~Group() { if (comm != MPI_COMM_NULL && comm != MPI_COMM_WORLD) MPI_Comm_free(&comm); }
	std::string folder() const
	{
		const std::string f = scratch + "/group" + std::to_string(color);
		mkdir(f.c_str(), 0700);
		return f;
	}
	Group(const Group&) = delete;
};

static void run_case(const Case& k)
{
	describe.clear();
	nontrivial_case = false;
	times_checked = 0;
	handles = Handles();
	if (k.empty()) return;
	const Config cfg = decode(k[0]);
	set_perturbation(cfg.delay, world_rank);
	Group group(cfg.comm);
	if (group.comm == MPI_COMM_NULL) return;
	const std::string scratch = group.folder();
	E e;
	e.init(cfg, group.comm);
	if (is("C19")) {
		if (!create_by_setup(e, cfg.setup)) return;
	} else e.create();
	note(cat(e.np, " processes, ", cfg.L[0], "x", cfg.L[1], "x", cfg.L[2], " periodic ", cfg.per[0], cfg.per[1], cfg.per[2],
		" neighborhood ", cfg.hood, " max level ", cfg.max, " ", cfg.method, ":"));
	std::unique_ptr<Reference<E>> ref;
	if (is("C13")) ref.reset(new Reference<E>(e));
	Levels<E> levels(e);
	if (is("C17")) levels.arm();
	structural(e, 1);
	u64 prev = 0, salt = 1;
	bool data_set = false;
	for (size_t n = 1; n < k.size(); n++) {
		Cursor c(k[n]);
		const int op = int(c.next() % n_ops);
		salt = mix(salt, n);
		const u64 used = handles.used;
		const void* const grid_before = e.g;
		switch (op) {
		case REQ: {
			static const int kinds[10] = {0, 0, 0, 0, 1, 1, 1, 2, 3, 3};
			int kind = kinds[c.below(10)];
			const bool at = c.flag();
			if (is("C13")) {
				if (kind == 2 && !e.U.empty()) kind = 3;
				if (kind == 1 && !(e.DR.empty() && e.lingering.empty())) kind = 0;
			}
			u64 done = 0;
			// many cells at a time
			if (c.below(6) == 5) {
				Rng r(c.next());
				const unsigned part = unsigned(r.range(30, 100));
				const std::vector<u64> ids(e.lv.ids.begin(), e.lv.ids.end());
				for (const u64 cell : ids) {
					if (kind == 1 ? e.lv.level(cell) == 0 || !r.chance(part) : !r.chance(5)) continue;
					const u64 where = r.next();
					if (kind == 0 && done >= 16) continue;
					if (kind == 0 && e.lv.level(cell) < cfg.max) {
						const bool fresh = e.R.insert(cell).second;
						const size_t size = e.lv.size() + 7 * e.expected_refines().size();
						if (fresh) e.R.erase(cell);
						if (size > e.cap) continue;
					}
					e.request(kind, cell, at, where);
					if (ref) ref->e.request(kind, cell, at, where);
					done++;
				}
			} else while (c.left() >= 2) {
				u64 cell = e.pick(c.next(), prev);
				const u64 where = c.next();
				if (where % 5 < 2) cell = e.related(kind, cell, where / 5);
				prev = cell;
				if (kind == 0 && e.lv.level(cell) < cfg.max) {
					const bool fresh = e.R.insert(cell).second;
					const size_t size = e.lv.size() + 7 * e.expected_refines().size();
					if (fresh) e.R.erase(cell);
					if (size > e.cap) continue;
				}
				e.request(kind, cell, at, where);
				if (ref) ref->e.request(kind, cell, at, where);
				done++;
			}
			static const char* const names[4] = {"refine", "unrefine", "dont_refine", "dont_unrefine"};
			note(cat(names[kind], "*", done));
			break;
		}
		case STOP: {
			const u64 r0 = e.refined_total, u0 = e.unrefined_total;
			e.stop(c.flag());
			if (ref) ref->stop(e);
			note(cat("stop(+", e.refined_total - r0, "-", e.unrefined_total - u0, ")"));
			structural(e, salt);
			if (is("C05", "C04", "C13") && e.refined_total + e.unrefined_total > r0 + u0 && e.np > 1)
				nontrivial_case = nontrivial_case || is("C13");
			break;
		}
		case CLEAR:
			e.clear_kept();
			note("clear");
			break;
		case BALANCE: {
			const u64 m0 = e.moved_total;
			const bool zoltan = c.below(4) != 0;
			u64 steps = c.below(4);
			if (is("C13") && steps == 1) steps = 2; // without transferring data
			const bool made_up = c.below(3) == 0;
			const u64 seed = c.next();
			e.balance(zoltan, unsigned(steps), made_up ? seed | 1 : 0);
			if (ref) ref->e.balance(zoltan, 0);
			note(cat(zoltan ? "balance(" : "migrate(", e.moved_total - m0, ")"));
			structural(e, salt);
			break;
		}
		case PIN:
			while (c.left() >= 2) {
				const u64 cell = e.pick(c.next(), prev);
				prev = cell;
				e.pin(cell, c.next());
			}
			note("pin");
			break;
		case UNPIN: {
			const u64 cell = e.pick(c.next(), prev);
			e.unpin(cell, c.next());
			note("unpin");
			break;
		}
		case ADDHOOD: {
			const u64 a = c.next(), b = c.next();
			e.add_hood(a, b, c.next());
			note("add_neighborhood");
			structural(e, salt);
			break;
		}
		case REMHOOD:
			e.remove_hood(c.next());
			note("remove_neighborhood");
			structural(e, salt);
			break;
		case SETDATA:
			e.set_all_data();
			data_set = true;
			if (ref) ref->set_data(e);
			note("data");
			break;
		case UPDATE: {
			const int h = e.some_hood(c.next());
			e.update(h, c.next());
			note(cat("update(", h == hood_default ? "default" : std::to_string(h), ")"));
			break;
		}
		case SINGLE: {
			const bool s = c.flag();
			e.g->set_send_single_cells(s);
			REQUIRE(e.g->get_send_single_cells() == s, "send_single_cells not set");
			note("single");
			break;
		}
		case WEIGHT: {
			const u64 cell = e.pick(c.next(), prev);
			const double w = double(c.below(1000)) / 8;
			const u64 many = c.below(4);
			if (many == 3) {
				const std::vector<u64> ids(e.lv.ids.begin(), e.lv.ids.end());
				for (const u64 id : ids) e.set_weight(id, w + double(id % 64));
			} else if (many == 2 && e.lv.level(cell) > 0) {
				for (const Pos& s : e.lv.r.children(e.lv.r.parent(e.lv.r.pos(cell)))) {
					const u64 id = e.lv.r.id(s);
					if (e.lv.has(id)) e.set_weight(id, w);
				}
			} else e.set_weight(cell, w);
			note("weight");
			break;
		}
		case OPTION: {
			const std::string m = methods()[c.next() % methods().size()];
			e.g->set_partitioning_option("LB_METHOD", m);
			note(m);
			break;
		}
		case SAVELOAD:
			save_and_load<E, Grid>(e, c, scratch);
			// loaded grid has default partitioning
			if (e.g != grid_before) levels.reset();
			note("save+load");
			structural(e, salt);
			break;
		case LOADCELLS:
			load_leaves<E, Grid>(e, c);
			if (e.g != grid_before) levels.reset();
			note("load_cells");
			structural(e, salt);
			break;
		case SUBSET:
			save_subset(e, c, scratch);
			note("save subset");
			break;
		case COPY:
			#ifdef COPIES
			copy_grid<grid_t, Geom>(e, c);
			note("copy");
			#endif
			break;
		case COMPUTE:
			if (ref) ref->compute(e, c);
			note("compute");
			break;
		case BADREQ: {
			const u64 cell = e.pick(c.next(), prev);
			e.bad_request(cell, c.next());
			break;
		}
		case LAYOUT: {
			const u64 slot = c.below(7);
			int l = int(c.next() % n_layouts);
			if (slot == 6 && l == L_var) l = L_struct;
			if (slot == 4 && l == L_strided && is("C11")) l = L_split;
			transfer.layout[slot] = l;
			note(cat("datatype", slot, "=", l));
			break;
		}
		case DIVE: {
			// as deep as possible around one point
			u64 cell = e.pick(c.next(), prev);
			const u64 times = 2 + c.below(9), side = c.next(), r0 = e.refined_total;
			const bool out = c.below(4) == 0;
			for (u64 i = 0; i < times; i++) {
				if (out) {
					if (!e.R.empty()) break;
					if (is("C13") && !(e.DR.empty() && e.lingering.empty())) break;
					for (const u64 id : e.lv.ids) if (e.lv.level(id) > 0) {
						e.request(1, id, false, 0);
						if (ref) ref->e.request(1, id, false, 0);
					}
				} else {
					if (e.lv.level(cell) >= cfg.max) break;
					const bool fresh = e.R.insert(cell).second;
					const size_t size = e.lv.size() + 7 * e.expected_refines().size();
					if (fresh) e.R.erase(cell);
					if (size > e.cap + 240) break;
					e.request(0, cell, false, 0);
					if (ref) ref->e.request(0, cell, false, 0);
				}
				e.stop(c.flag());
				if (ref) ref->stop(e);
				const Pos p = e.lv.r.pos(cell);
				if (p.lvl < cfg.max) {
					const u64 child = e.lv.r.id(e.lv.r.children(p)[(side >> (i % 3)) % 8]);
					if (e.lv.has(child)) cell = child;
				}
				if (!e.lv.has(cell)) break;
				prev = cell;
			}
			note(cat("dive(", e.refined_total - r0, ")"));
			structural(e, salt);
			break;
		}
		case SCATTER: {
			// families of siblings all over the processes are removed simultaneously
			Rng r(c.next());
			const u64 partition = c.next();
			const bool sorted = c.flag();
			const u64 u0 = e.unrefined_total;
			for (int round = 0; round < 2; round++) {
				const std::vector<u64> ids(e.lv.ids.begin(), e.lv.ids.end());
				for (const u64 cell : ids) {
					if (!r.chance(25) || e.lv.level(cell) >= cfg.max || e.lv.level(cell) > 1) continue;
					const bool fresh = e.R.insert(cell).second;
					const size_t size = e.lv.size() + 7 * e.expected_refines().size();
					if (fresh) e.R.erase(cell);
					if (size > e.cap) break;
					e.request(0, cell, false, 0);
				}
				e.stop(sorted);
			}
			e.balance(true, 0, partition | 1);
			e.set_all_data();
			data_set = true;
			const std::vector<u64> ids(e.lv.ids.begin(), e.lv.ids.end());
			for (const u64 cell : ids) if (e.lv.level(cell) > 0 && r.chance(50)) e.request(1, cell, false, 0);
			e.stop(sorted);
			note(cat("scatter(-", e.unrefined_total - u0, ")"));
			structural(e, salt);
			break;
		}
		case CHAIN: {
			// refinement that is induced over several levels, or prevented from far away
			const u64 start = c.next(), how = c.below(4), n = c.next(), r0 = e.refined_total, steps = c.below(4);
			const bool sorted = c.flag();
			std::vector<u64> chain;
			auto fits = [&]() {
				chain = e.longest_chain(start);
				if (chain.empty()) return false;
				const bool fresh = e.R.insert(chain[0]).second;
				const size_t size = e.lv.size() + 7 * e.expected_refines().size();
				if (fresh) e.R.erase(chain[0]);
				return size <= e.cap + 240;
			};
			auto ask = [&](int kind, u64 cell) {
				e.request(kind, cell, false, 0);
				if (ref) ref->e.request(kind, cell, false, 0);
			};
			bool ok = fits();
			for (u64 i = 0; i < steps && ok && chain.size() < 3; i++) {
				ask(0, chain[0]);
				e.stop(sorted);
				if (ref) ref->stop(e);
				ok = fits();
			}
			if (!ok) break;
			const u64 far = n % 2 ? chain.back() : chain[n / 2 % chain.size()];
			const bool prevent = how >= 2 && !(is("C13") && !e.U.empty());
			if (prevent && how == 2) ask(2, far);
			ask(0, chain[0]);
			if (prevent && how == 3) ask(2, far);
			if (how == 1 && !(is("C13") && !(e.DR.empty() && e.lingering.empty()))) {
				// cells that are refined anyway, or whose neighbors are
				for (const Pos& p : e.lv.r.children(e.lv.r.parent(e.lv.r.pos(far)))) if (e.lv.level(far) > 0) {
					const u64 sibling = e.lv.r.id(p);
					if (e.lv.has(sibling)) ask(1, sibling);
				}
			}
			e.stop(sorted);
			if (ref) ref->stop(e);
			note(cat("chain(", chain.size(), prevent ? ",prevented," : ",", e.refined_total - r0, ")"));
			structural(e, salt);
			break;
		}
		case FAULT:
			#ifdef FAULTS
			note(fail_with_files<E, Grid>(e, c, scratch));
			#endif
			break;
		case LEVEL:
			levels.change(c);
			note("level");
			break;
		}
		if (is("C23")) {
			REQUIRE(handles.pending(true) == 0, handles.pending(true), " messages are still being sent after operation ", op);
			REQUIRE(handles.pending(false) == 0, handles.pending(false), " messages are still being received after operation ", op);
			REQUIRE(handles.types == 0, handles.types, " datatypes were not freed by operation ", op);
			REQUIRE(handles.files == 0, handles.files, " files were not closed by operation ", op);
			stats.checks += 4;
			if (used != handles.used) nontrivial_case = true;
		}
		if (data_set && is("C08", "C09", "C07") && op != UPDATE) e.check_local_data("between operations");
	}
	delete e.g;
	e.g = nullptr;
}

struct Weighted { int op; unsigned w; };

static Case generate(u64 seed, u64 index, int np)
{
	Rng r(mix(mix(seed, hash_text(prop)), index));
	Case k(1);
	Line& l = k[0];
	l.push_back(u64(np));
	l.push_back(GEOM);
	// length
	const u64 budget = r.chance(20) && prop != "C22" ? 120 : 40;
	u64 L[3] = {1, 1, 1};
	const u64 shape = r.below(4);
	// also fewer cells than processes
	const int tries = r.chance(25) ? int(r.below(8)) : 40;
	for (int t = 0; t < tries; t++) {
		const u64 d = r.below(3);
		if (shape == 0 && d != index % 3) continue;
		if (shape == 1 && d == index % 3) continue;
		if (L[d] < 12 && L[0] * L[1] * L[2] / L[d] * (L[d] + 1) <= budget) L[d]++;
	}
	for (int d = 0; d < 3; d++) l.push_back(L[d] - 1);
	l.push_back(r.below(8));
	static const unsigned hood_w[10] = {0, 0, 0, 1, 1, 1, 1, 2, 2, 3};
	l.push_back(hood_w[r.below(prop == "C22" ? 9 : 10)]);
	static const unsigned max_w[12] = {0, 1, 1, 2, 2, 2, 2, 3, 3, 4, 5, 6};
	l.push_back(max_w[r.below(12)]);
	static const unsigned method_w[16] = {0, 0, 1, 1, 1, 1, 2, 2, 2, 3, 4, 4, 5, 6, 7, 1};
	l.push_back(method_w[r.below(16)]);
	l.push_back(r.below(2));
	l.push_back(r.below(16));
	for (int i = 0; i < 7; i++) {
		u64 lay = r.below(n_layouts);
		if (is("C13")) lay = L_words;
		l.push_back(lay);
	}
	l.push_back(r.chance(20) ? 0 : 1 + r.below(1000000));
	l.push_back(1 + r.below(1000000));
	l.push_back(r.chance(70) ? 0 : 1 + r.below(1000));
	l.push_back(r.below(1000000));

	std::vector<Weighted> w{{REQ, 30}, {STOP, 14}, {BALANCE, 6}, {DIVE, 2}};
	auto add = [&](std::initializer_list<Weighted> a) { w.insert(w.end(), a.begin(), a.end()); };
	if (is("C04")) add({{PIN, 3}, {UNPIN, 1}, {CLEAR, 2}, {BADREQ, 3}, {OPTION, 2}, {LOADCELLS, 1}});
	if (is("C05")) add({{CLEAR, 1}, {OPTION, 1}, {PIN, 1}, {CHAIN, 5}});
	if (is("C06")) add({{ADDHOOD, 6}, {REMHOOD, 3}, {PIN, 2}, {OPTION, 1}});
	if (is("C07")) add({{CHAIN, 7}, {SCATTER, 4}, {SINGLE, 2}, {SETDATA, 6}, {CLEAR, 5}, {WEIGHT, 4}, {BADREQ, 3}, {PIN, 1}, {LAYOUT, 2}, {OPTION, 1}});
	if (is("C08")) add({{UPDATE, 26}, {SETDATA, 14}, {ADDHOOD, 7}, {REMHOOD, 3}, {SINGLE, 5}, {LAYOUT, 6}, {PIN, 3}, {OPTION, 2}, {CLEAR, 1}});
	if (is("C09")) add({{BALANCE, 20}, {SETDATA, 12}, {PIN, 5}, {UNPIN, 2}, {SINGLE, 4}, {LAYOUT, 6}, {OPTION, 5}, {WEIGHT, 6}, {UPDATE, 8}, {ADDHOOD, 2}});
	if (is("C10")) add({{BALANCE, 20}, {PIN, 18}, {UNPIN, 8}, {OPTION, 4}, {CLEAR, 1}});
	if (is("C11")) add({{SAVELOAD, 10}, {SUBSET, 4}, {SETDATA, 10}, {LAYOUT, 6}, {LOADCELLS, 3}, {OPTION, 2}, {CLEAR, 1}});
	if (is("C12")) add({{ADDHOOD, 7}, {REMHOOD, 4}, {PIN, 3}, {OPTION, 2}, {UPDATE, 2}});
	if (is("C13")) add({{CHAIN, 3}, {COMPUTE, 20}, {SETDATA, 5}, {PIN, 3}, {OPTION, 2}, {SINGLE, 3}, {WEIGHT, 2}, {BALANCE, 6}});
	if (is("C17")) add({{BALANCE, 24}, {LEVEL, 12}, {WEIGHT, 16}, {PIN, 6}, {UNPIN, 2}, {OPTION, 4}, {ADDHOOD, 1}});
	if (is("C18")) add({{ADDHOOD, 5}, {REMHOOD, 3}, {PIN, 2}, {WEIGHT, 4}, {OPTION, 1}});
	if (prop == "C20") w = {{CHAIN, 2}, {REQ, 30}, {STOP, 14}, {BALANCE, 3}, {DIVE, 2}, {UPDATE, 14}, {SETDATA, 10}, {ADDHOOD, 5}, {REMHOOD, 2}, {SINGLE, 3},
		{LAYOUT, 4}, {PIN, 1}, {UNPIN, 1}, {WEIGHT, 2}, {CLEAR, 2}, {BADREQ, 2}, {OPTION, 1}, {LEVEL, 1}};
	if (prop == "C21") w = {{CHAIN, 3}, {SCATTER, 1}, {REQ, 30}, {STOP, 14}, {BALANCE, 10}, {DIVE, 3}, {UPDATE, 8}, {SETDATA, 8}, {ADDHOOD, 5}, {REMHOOD, 2}, {SINGLE, 2},
		{LAYOUT, 3}, {PIN, 5}, {UNPIN, 2}, {WEIGHT, 2}, {CLEAR, 2}, {OPTION, 2}, {SAVELOAD, 1}, {LOADCELLS, 1}};
	if (prop == "C22") {
		w = {{CHAIN, 3}, {SCATTER, 1}, {REQ, 30}, {STOP, 14}, {BALANCE, 12}, {DIVE, 3}, {UPDATE, 10}, {SETDATA, 8}, {ADDHOOD, 6}, {REMHOOD, 4}, {SINGLE, 3}, {LAYOUT, 4},
			{PIN, 5}, {UNPIN, 2}, {WEIGHT, 2}, {CLEAR, 2}, {BADREQ, 2}, {OPTION, 2}, {LEVEL, 1}, {SAVELOAD, 3}, {SUBSET, 1}, {LOADCELLS, 1}};
		#ifdef COPIES
		add({{COPY, 4}});
		#endif
	}
	if (prop == "C23") w = {{SCATTER, 1}, {REQ, 24}, {STOP, 14}, {BALANCE, 12}, {DIVE, 1}, {UPDATE, 14}, {SETDATA, 8}, {ADDHOOD, 5}, {REMHOOD, 3}, {SINGLE, 5},
		{LAYOUT, 10}, {PIN, 5}, {UNPIN, 1}, {CLEAR, 2}, {OPTION, 2}, {LEVEL, 1}, {SAVELOAD, 6}, {SUBSET, 3}, {LOADCELLS, 1}};
	if (prop == "C24") w = {{REQ, 16}, {STOP, 9}, {BALANCE, 6}, {DIVE, 1}, {SETDATA, 10}, {LAYOUT, 10}, {FAULT, 40}, {SAVELOAD, 2}};
	if (is("C14")) add({{COPY, 8}, {SETDATA, 4}, {ADDHOOD, 3}, {PIN, 3}, {WEIGHT, 2}, {OPTION, 2}});
	unsigned total = 0;
	for (const auto& i : w) total += i.w;
	const u64 n = is("C19") ? r.below(7) : 6 + r.below(26);
	if (is("C08", "C09", "C11", "C07", "C13") || prop == "C24") k.push_back({u64(SETDATA)});
	for (u64 i = 0; i < n; i++) {
		u64 x = r.below(total);
		int op = 0;
		for (const auto& j : w) {
			if (x < j.w) { op = j.op; break; }
			x -= j.w;
		}
		Line q;
		q.push_back(u64(op));
		u64 m = 6;
		if (op == REQ) m = 3 + 2 * (1 + r.below(r.chance(25) ? 16 : 4));
		if (op == PIN) m = 2 * (1 + r.below(5));
		if (op == SAVELOAD || op == SUBSET || op == COPY || op == LOADCELLS || op == FAULT) m = 24;
		for (u64 j = 0; j < m; j++) q.push_back(r.below(1u << 20));
		k.push_back(q);
	}
	if (is("C11")) {
		Line q{u64(SAVELOAD)};
		for (int j = 0; j < 24; j++) q.push_back(r.below(1u << 20));
		k.push_back(q);
	}
	if (is("C08")) {
		Line q{u64(UPDATE)};
		for (int j = 0; j < 4; j++) q.push_back(r.below(1u << 20));
		k.push_back(q);
	}
	return k;
}

#include "main.hpp"
