/*
What the partitioner sees through dccrg's query functions and options of
hierarchical partitioning.
*/
#ifndef VP_PARTITION_HPP
#define VP_PARTITION_HPP
#include "engine.hpp"

namespace vp {

#ifdef DCCRG_NO_LB
template<class E> struct Levels {
	E& e;
	explicit Levels(E& given) : e(given) {}
	void arm() {}
	void reset() {}
	//! nothing has any effect
	void change(Cursor&)
	{
		e.g->add_partitioning_level(1);
		e.g->add_partitioning_option(0, "LB_METHOD", "RCB");
		REQUIRE(e.g->get_partitioning_options(0).empty() && e.g->get_partitioning_option_value(0, "LB_METHOD").empty(), "options of partitioning exist");
		e.g->remove_partitioning_option(0, "LB_METHOD");
		e.g->remove_partitioning_level(0);
	}
};
#else

template<class E> struct Levels {
	E& e;
	std::vector<std::pair<int, std::map<std::string, std::string>>> levels;
	explicit Levels(E& given) : e(given) {}
	~Levels() { partitioner.before = nullptr; }
	void reset() { levels.clear(); }

	void change(Cursor& c)
	{
		const u64 n = 1 + c.below(5);
		Rng r(c.next());
		for (u64 i = 0; i < n; i++) change(r);
	}
	void change(Rng& c)
	{
		static const char* const names[5] = {"LB_METHOD", "PHG_CUT_OBJECTIVE", "IMBALANCE_TOL", "RCB_OUTPUT_LEVEL", "REMAP"};
		static const char* const values[5] = {"RCB", "HYPERGRAPH", "1.5", "0", "HSFC"};
		static const char* const reserved[8] = {"RETURN_LISTS", "EDGE_WEIGHT_DIM", "NUM_GID_ENTRIES", "NUM_LID_ENTRIES",
			"OBJ_WEIGHT_DIM", "NUM_GLOBAL_PARTS", "NUM_LOCAL_PARTS", "AUTO_MIGRATE"};
		const u64 what = c.below(8);
		// levels that don't exist are ignored
		const int level = int(c.below(levels.size() + 3)) - 1;
		const bool exists = level >= 0 && level < int(levels.size());
		const std::string name = names[c.below(5)], value = values[c.below(5)];
		const u64 x = c.next();
		switch (what) {
		case 0: case 1: case 2: {
			if (levels.size() >= 4) break;
			const int n = 1 + int(x % 4);
			e.g->add_partitioning_level(n);
			levels.push_back({n, {{"LB_METHOD", "HYPERGRAPH"}, {"PHG_CUT_OBJECTIVE", "CONNECTIVITY"}}});
			break;
		}
		case 3:
			e.g->remove_partitioning_level(level);
			if (exists) levels.erase(levels.begin() + level);
			break;
		case 4: case 5:
			e.g->add_partitioning_option(level, name, value);
			if (exists) levels[size_t(level)].second[name] = value;
			break;
		case 6:
			e.g->remove_partitioning_option(level, name);
			if (exists) levels[size_t(level)].second.erase(name);
			break;
		case 7:
			// must not have any effect, whether or not refused with an exception
			partitioner.set.clear();
			partitioner.record = true;
			try { e.g->add_partitioning_option(level, reserved[x % 8], "3"); } catch (const std::invalid_argument&) {}
			try { e.g->set_partitioning_option(reserved[x % 8], "3"); } catch (const std::invalid_argument&) {}
			try { e.g->add_partitioning_level(-int(x % 3)); } catch (const std::invalid_argument&) {}
			partitioner.record = false;
			REQUIRE(partitioner.set.empty(), "reserved option ", reserved[x % 8], " was set");
			break;
		}
		compare();
	}

	void compare() const
	{
		std::vector<unsigned> parts;
		for (const auto& l : levels) parts.push_back(unsigned(l.first));
		REQUIRE(e.g->get_processes_per_part() == parts, "numbers of processes of partitioning levels");
		for (int i = -1; i <= int(levels.size()) + 1; i++) {
			std::vector<std::string> got = e.g->get_partitioning_options(i);
			std::sort(got.begin(), got.end());
			std::vector<std::string> want;
			const bool exists = i >= 0 && i < int(levels.size());
			if (exists) for (const auto& o : levels[size_t(i)].second) {
				want.push_back(o.first);
				REQUIRE(e.g->get_partitioning_option_value(i, o.first) == o.second, "option ", o.first, " of level ", i,
					" is ", e.g->get_partitioning_option_value(i, o.first), " instead of ", o.second);
				REQUIRE(e.g->get_partitioning_option_value(int(levels.size()), o.first).empty(), "option of a level that doesn't exist");
			}
			REQUIRE(got == want, "options of level ", i);
			REQUIRE(e.g->get_partitioning_option_value(i, "NOTHING").empty(), "value of option that doesn't exist");
		}
	}

	void arm()
	{
		partitioner.before = [this](Zoltan_Struct* zz, const Queries& q) { check(zz, q); };
	}

	//! compares results of all query functions with the grid
	void check(Zoltan_Struct* zz, const Queries& q)
	{
		std::map<u64, int> mine;
		for (const auto& i : e.lv.owner) if (i.second == e.rank) mine[i.first] = 0;
		int err = 77;
		if (q.num_obj == nullptr || q.obj_list == nullptr) return;
		const int n = q.num_obj(q.num_obj_data, &err);
		REQUIRE(err == ZOLTAN_OK && n == int(mine.size()), "partitioner was told of ", n, " cells instead of ", mine.size());
		const size_t m = size_t(n);
		const ZOLTAN_ID_TYPE guard = 0xfffffff0;
		std::vector<ZOLTAN_ID_TYPE> ids(m + 1, guard);
		for (int dim = 0; dim <= 1; dim++) {
			std::vector<float> w(m + 1, -5);
			err = 77;
			q.obj_list(q.obj_list_data, 1, 0, ids.data(), nullptr, dim, dim == 0 ? nullptr : w.data(), &err);
			REQUIRE(err == ZOLTAN_OK && ids[m] == guard && w[m] == -5, "list of cells given to partitioner");
			for (auto& i : mine) i.second = 0;
			for (size_t i = 0; i < m; i++) {
				REQUIRE(mine.count(ids[i]) && mine[ids[i]]++ == 0, "wrong cell ", ids[i], " given to partitioner");
				if (dim == 0) continue;
				const auto x = e.weights.find(ids[i]);
				const float want = x == e.weights.end() ? 1.0f : float(x->second);
				REQUIRE(w[i] == want, "weight of cell ", ids[i], " given to partitioner is ", w[i], " instead of ", want);
			}
			stats.checks += m;
		}
		// in another order and only some
		Rng r(m + e.version);
		for (size_t i = 1; i < m; i++) std::swap(ids[i], ids[r.below(i + 1)]);
		const size_t some = r.chance(50) ? m : m - m / 3;
		if (q.num_geom != nullptr && q.geom != nullptr) {
			err = 77;
			const int dims = q.num_geom(q.num_geom_data, &err);
			REQUIRE(err == ZOLTAN_OK && dims == 3, "number of dimensions ", dims);
			std::vector<double> x(3 * some + 1, -1234.5);
			err = 77;
			q.geom(q.geom_data, 1, 0, int(some), ids.data(), nullptr, dims, x.data(), &err);
			REQUIRE(err == ZOLTAN_OK && x[3 * some] == -1234.5, "coordinates given to partitioner");
			for (size_t i = 0; i < some; i++) {
				const auto c = e.center(ids[i]);
				for (size_t d = 0; d < 3; d++) {
					REQUIRE(std::fabs(x[3 * i + d] - c[d]) <= 1e-9 * (1 + std::fabs(c[d])), "center of cell ", ids[i],
						" given to partitioner is ", x[3 * i + d], " instead of ", c[d], " in dimension ", d);
				}
			}
		}
		// graph
		auto want = [&](u64 id) {
			std::set<u64> ret;
			for (const auto& i : e.all_of().at(id)) if (i.first != id) ret.insert(i.first);
			return ret;
		};
		if (q.num_edges != nullptr && q.edges != nullptr) {
			std::vector<int> count(some + 1, -9), again(some + 1, -9);
			err = 77;
			q.num_edges(q.num_edges_data, 1, 0, int(some), ids.data(), nullptr, count.data(), &err);
			REQUIRE(err == ZOLTAN_OK && count[some] == -9, "numbers of neighbors given to partitioner");
			size_t total = 0;
			for (size_t i = 0; i < some; i++) {
				REQUIRE(count[i] >= 0 && count[i] < 1000000, "number of neighbors of cell ", ids[i]);
				total += size_t(count[i]);
			}
			again = count;
			const bool weights = r.chance(50);
			std::vector<ZOLTAN_ID_TYPE> nbr(total + 1, guard);
			std::vector<int> procs(total + 1, -9);
			std::vector<float> w(total + 1, -5);
			err = 77;
			q.edges(q.edges_data, 1, 0, int(some), ids.data(), nullptr, again.data(), nbr.data(), procs.data(),
				weights ? 1 : 0, weights ? w.data() : nullptr, &err);
			REQUIRE(err == ZOLTAN_OK && nbr[total] == guard && procs[total] == -9 && w[total] == -5, "neighbors given to partitioner");
			size_t at = 0;
			for (size_t i = 0; i < some; i++) {
				std::set<u64> got;
				for (int j = 0; j < count[i]; j++, at++) {
					got.insert(nbr[at]);
					REQUIRE(e.lv.has(nbr[at]), "neighbor ", nbr[at], " of cell ", ids[i], " given to partitioner");
					REQUIRE(procs[at] == e.lv.owner.at(nbr[at]), "process of neighbor ", nbr[at], " given to partitioner");
					if (weights) REQUIRE(w[at] > 0, "weight of neighbor ", nbr[at], " given to partitioner");
				}
				REQUIRE(got == want(ids[i]), "neighbors of cell ", ids[i], " given to partitioner, ", got.size(),
					" instead of ", want(ids[i]).size());
				stats.checks++;
			}
		}
		// hypergraph
		if (q.hg_size != nullptr && q.hg != nullptr) {
			int lists = -9, pins = -9, format = -9;
			err = 77;
			q.hg_size(q.hg_size_data, &lists, &pins, &format, &err);
			REQUIRE(err == ZOLTAN_OK && lists >= 0 && pins >= 0 && format == ZOLTAN_COMPRESSED_EDGE, "size of hypergraph");
			const size_t l = size_t(lists), p = size_t(pins);
			std::vector<ZOLTAN_ID_TYPE> edge(l + 1, guard), vertex(p + 1, guard);
			std::vector<int> begin(l + 1, -9);
			err = 77;
			q.hg(q.hg_data, 1, lists, pins, format, edge.data(), begin.data(), vertex.data(), &err);
			REQUIRE(err == ZOLTAN_OK && edge[l] == guard && vertex[p] == guard && begin[l] == -9, "hypergraph given to partitioner");
			REQUIRE(l == m, "number of hyperedges is ", l, " instead of ", m);
			begin[l] = pins;
			std::map<u64, u64> size;
			for (size_t i = 0; i < l; i++) {
				REQUIRE(mine.count(edge[i]) && size.count(edge[i]) == 0, "hyperedge ", edge[i]);
				REQUIRE(begin[i] >= 0 && begin[i] <= begin[i + 1] && begin[i + 1] <= pins, "hyperedge ", edge[i], " begins from ", begin[i]);
				size[edge[i]] = u64(begin[i + 1] - begin[i]);
				const std::set<u64> got(vertex.begin() + begin[i], vertex.begin() + begin[i + 1]);
				std::set<u64> w = want(edge[i]);
				w.insert(edge[i]);
				REQUIRE(got == w, "cells of hyperedge ", edge[i]);
				stats.checks++;
			}
			if (q.hg_wsize != nullptr && q.hg_w != nullptr) {
				int number = -9;
				err = 77;
				q.hg_wsize(q.hg_wsize_data, &number, &err);
				REQUIRE(err == ZOLTAN_OK && number == lists, "number of hyperedge weights is ", number);
				std::vector<float> w(l + 1, -5);
				std::vector<ZOLTAN_ID_TYPE> which(l + 1, guard);
				err = 77;
				q.hg_w(q.hg_w_data, 1, 0, number, 1, which.data(), nullptr, w.data(), &err);
				REQUIRE(err == ZOLTAN_OK && which[l] == guard && w[l] == -5, "hyperedge weights given to partitioner");
				for (size_t i = 0; i < l; i++) {
					REQUIRE(size.count(which[i]), "weight of hyperedge ", which[i]);
					REQUIRE(w[i] == float(size[which[i]] - 1), "weight of hyperedge ", which[i], " is ", w[i],
						" instead of number of neighbors ", size[which[i]] - 1);
					size.erase(which[i]);
				}
			}
		}
		// levels
		if (q.levels != nullptr && q.part != nullptr && q.method != nullptr) {
			err = 77;
			const int got = q.levels(q.levels_data, &err);
			REQUIRE(err == ZOLTAN_OK && got == int(levels.size()), "number of partitioning levels is ", got, " instead of ", levels.size());
			int process = e.rank;
			for (int i = 0; i < got; i++) {
				const int each = levels[size_t(i)].first;
				err = 77;
				const int part = q.part(q.part_data, i, &err);
				REQUIRE(err == ZOLTAN_OK && part == process / each, "part of process ", e.rank, " on level ", i, " is ", part,
					" instead of ", process / each);
				process %= each;
				partitioner.set.clear();
				partitioner.record = true;
				err = 77;
				q.method(q.method_data, i, zz, &err);
				partitioner.record = false;
				REQUIRE(err == ZOLTAN_OK, "options of level ", i);
				const std::map<std::string, std::string> options(partitioner.set.begin(), partitioner.set.end());
				REQUIRE(options == levels[size_t(i)].second && options.size() == partitioner.set.size(),
					"options of level ", i, " given to partitioner");
			}
			for (const int bad : {-1, got}) {
				err = ZOLTAN_OK;
				q.part(q.part_data, bad, &err);
				REQUIRE(err != ZOLTAN_OK, "part on level ", bad, " of ", got);
				err = ZOLTAN_OK;
				q.method(q.method_data, bad, zz, &err);
				REQUIRE(err != ZOLTAN_OK, "options of level ", bad, " of ", got);
			}
			if (got > 0) stats.label("hierarchical levels checked", u64(got));
		}
		stats.label("query functions compared");
		if (m > 0 && e.np > 1) nontrivial_case = true;
	}
};

#endif
} // namespace
#endif
