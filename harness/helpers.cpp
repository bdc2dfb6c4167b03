/*
MPI helpers of dccrg on generated values, communicators and message schedules.
*/
#include "pmpi.hpp"
#include "globals.hpp"
#include "dccrg_mpi_support.hpp"

using namespace vp;

static void run_case(const Case& k)
{
	describe.clear();
	nontrivial_case = false;
	if (k.empty()) return;
	Cursor c(k[0]);
	c.next();
	set_perturbation(c.next(), world_rank);
	// communicator
	int np, rank;
	MPI_Comm comm;
	MPI_Comm_size(MPI_COMM_WORLD, &np);
	const u64 kind = c.below(3), seed0 = c.next();
	if (kind == 0) MPI_Comm_dup(MPI_COMM_WORLD, &comm);
	else {
		// random subsets in random order
		Rng r(seed0);
		std::vector<int> color, key;
		for (int i = 0; i < np; i++) {
			color.push_back(int(r.below(kind)));
			key.push_back(int(r.below(100)));
		}
		MPI_Comm_split(MPI_COMM_WORLD, color[size_t(world_rank)], key[size_t(world_rank)], &comm);
	}
	MPI_Comm_size(comm, &np);
	MPI_Comm_rank(comm, &rank);
	std::vector<int> world(static_cast<size_t>(np));
	MPI_Allgather(&world_rank, 1, MPI_INT, world.data(), 1, MPI_INT, comm);
	note(cat(np, " processes:"));
	if (np > 1) nontrivial_case = true;

	for (size_t n = 1; n < k.size(); n++) {
		Cursor q(k[n]);
		const u64 op = q.below(4), seed = q.next(), style = q.next();
		// everyone knows what everyone has
		auto rng = [&](int p) { return Rng(mix(mix(seed, n), u64(world[size_t(p)]))); };
		switch (op) {
		case 0: {
			std::vector<std::vector<u64>> want, got;
			for (int p = 0; p < np; p++) {
				Rng r = rng(p);
				std::vector<u64> v(style % 5 == 0 ? 0 : r.below(style % 5 == 1 ? 2000 : 1 + style % 7));
				for (auto& x : v) x = r.next();
				want.push_back(v);
			}
			// contents from before must not matter
			got.resize(style / 5 % 9);
			for (auto& v : got) v.resize(style / 45 % 5, 7);
			std::vector<u64> mine = want[size_t(rank)];
			dccrg::All_Gather()(mine, got, comm);
			REQUIRE(got == want, "All_Gather returned wrong values");
			REQUIRE(mine == want[size_t(rank)], "All_Gather changed its arguments");
			note("gather");
			break;
		}
		case 1: {
			u64 want = 0;
			for (int p = 0; p < np; p++) want += rng(p).next() >> (style % 3 * 20);
			const u64 got = dccrg::All_Reduce()(rng(rank).next() >> (style % 3 * 20), comm);
			REQUIRE(got == want, "All_Reduce returned ", got, " instead of ", want);
			note("reduce");
			break;
		}
		case 2: {
			// random symmetric relation, several times in a row without synchronizing
			const u64 times = 1 + style % 4, density = 1 + style / 4 % 100;
			for (u64 t = 0; t < times; t++) {
				Rng r(mix(mix(seed, n), t));
				std::vector<std::vector<bool>> edge(size_t(np), std::vector<bool>(size_t(np), false));
				std::vector<u64> value;
				for (int p = 0; p < np; p++) value.push_back(mix(mix(seed, t + 1000), u64(world[size_t(p)])));
				// communicators differ between groups of processes but not inside them
				for (int a = 0; a < np; a++) for (int b = 0; b < a; b++) {
					if (r.below(100) < density) edge[size_t(a)][size_t(b)] = edge[size_t(b)][size_t(a)] = true;
				}
				std::unordered_set<int> neighbors;
				u64 want = value[size_t(rank)];
				for (int p = 0; p < np; p++) if (edge[size_t(rank)][size_t(p)]) {
					neighbors.insert(p);
					want += value[size_t(p)];
				}
				const std::unordered_set<int> before = neighbors;
				if (seed % 3 == 0) usleep(unsigned(rng(rank).below(300)));
				const u64 got = dccrg::Some_Reduce()(value[size_t(rank)], neighbors, comm);
				REQUIRE(got == want, "Some_Reduce with ", neighbors.size(), " neighbors returned ", got, " instead of ", want);
				REQUIRE(neighbors == before, "Some_Reduce changed its arguments");
				REQUIRE(handles.requests.empty(), "Some_Reduce left ", handles.requests.size(), " messages underway");
			}
			note(cat("neighbors*", times));
			break;
		}
		case 3: {
			// datatypes
			MPI_Datatype named[] = {MPI_INT, MPI_BYTE, MPI_DOUBLE, MPI_UINT64_T, MPI_CXX_BOOL, MPI_LONG_DOUBLE, MPI_CHAR, MPI_WCHAR, MPI_2INT};
			MPI_Datatype t = named[seed % 9];
			REQUIRE(dccrg::Is_Named_Datatype()(t), "named datatype is not");
			MPI_Datatype d;
			const int lengths[2] = {1, int(style % 3)};
			const MPI_Aint disp[2] = {0, 32};
			const MPI_Datatype types[2] = {t, MPI_INT};
			switch (style % 6) {
			case 0: MPI_Type_contiguous(int(seed % 4), t, &d); break;
			case 1: MPI_Type_vector(2, 1, 2, t, &d); break;
			case 2: MPI_Type_create_struct(2, lengths, disp, types, &d); break;
			case 3: MPI_Type_dup(t, &d); break;
			case 4: MPI_Type_create_resized(t, 0, 64, &d); break;
			case 5: MPI_Type_create_hindexed(2, lengths, disp, t, &d); break;
			}
			if (seed % 2) MPI_Type_commit(&d);
			REQUIRE(!dccrg::Is_Named_Datatype()(d), "derived datatype is named");
			MPI_Type_free(&d);
			for (const int e : {int(MPI_SUCCESS), int(MPI_ERR_BUFFER), int(MPI_ERR_TRUNCATE), int(MPI_ERR_NO_SUCH_FILE), int(MPI_ERR_TYPE)}) {
				char text[MPI_MAX_ERROR_STRING + 1] = {0};
				int len = 0;
				MPI_Error_string(e, text, &len);
				REQUIRE(dccrg::Error_String()(e) == std::string(text, size_t(len)), "wrong text of error ", e);
			}
			note("datatypes");
			break;
		}
		}
		stats.checks++;
	}
	MPI_Comm_free(&comm);
}

static Case generate(u64 seed, u64 index, int np)
{
	Rng r(mix(mix(seed, hash_text(prop)), index));
	Case k(1);
	k[0].push_back(u64(np));
	for (int i = 0; i < 3; i++) k[0].push_back(r.below(1u << 20));
	const u64 n = 3 + r.below(12);
	for (u64 i = 0; i < n; i++) {
		Line q;
		for (int j = 0; j < 3; j++) q.push_back(r.below(1u << 20));
		k.push_back(q);
	}
	return k;
}

#include "main.hpp"
