/*
Grids with different types of cell data: everything that can be used as cell
data must arrive unchanged in updates, load balancing and files.

PART selects which types are instantiated.
*/
#ifdef USE_COMPLEX
#include <complex>
#define DCCRG_USER_COMPLEX
#endif
#include "pmpi.hpp"
#include "globals.hpp"
#include <zoltan.h>
#include "dccrg.hpp"
#include "dccrg_cartesian_geometry.hpp"

using namespace vp;
typedef std::tuple<void*, int, MPI_Datatype> datatype_t;

//! random contents, comparison of the part that is transferred and its size
template<class T> struct Traits {
	static void fill(T& t, Rng& r) { t = T(r.next()); }
	static bool same(const T& a, const T& b) { return a == b; }
	static size_t size() { return sizeof(T); }
};
template<> void Traits<float>::fill(float& t, Rng& r) { t = std::ldexp(float(int(r.below(1 << 24)) - (1 << 23)), int(r.below(60)) - 30); }
template<> void Traits<double>::fill(double& t, Rng& r) { t = std::ldexp(double(int64_t(r.next()) >> 11), int(r.below(400)) - 200); }
template<> void Traits<long double>::fill(long double& t, Rng& r) { t = std::ldexp((long double) int64_t(r.next()), int(r.below(2000)) - 1000); }
template<> void Traits<bool>::fill(bool& t, Rng& r) { t = r.next() & 1; }
#ifdef USE_COMPLEX
template<class T> struct Traits<std::complex<T>> {
	static void fill(std::complex<T>& t, Rng& r) { T a, b; Traits<T>::fill(a, r); Traits<T>::fill(b, r); t = std::complex<T>(a, b); }
	static bool same(const std::complex<T>& a, const std::complex<T>& b) { return a == b; }
	static size_t size() { return 2 * sizeof(T); }
};
#endif
template<class T, size_t N> struct Traits<std::array<T, N>> {
	static void fill(std::array<T, N>& t, Rng& r) { for (T& x : t) Traits<T>::fill(x, r); }
	static bool same(const std::array<T, N>& a, const std::array<T, N>& b)
	{
		for (size_t i = 0; i < N; i++) if (!Traits<T>::same(a[i], b[i])) return false;
		return true;
	}
	static size_t size() { return N * Traits<T>::size(); }
};

//! cells with their own datatypes: a is transferred, b isn't
struct Own {
	int a[3];
	int b;
	static int make_type(MPI_Datatype& t) { return MPI_Type_contiguous(3, MPI_INT, &t); }
	datatype_t good() const
	{
		MPI_Datatype t;
		MPI_Type_contiguous(3, MPI_INT, &t);
		return std::make_tuple((void*) a, 1, t);
	}
	datatype_t bad() const { return std::make_tuple((void*) &b, 1, MPI_INT); }
};
#define ARGS const uint64_t, const int, const int, const bool, const int
struct Args_Const : Own { datatype_t get_mpi_datatype(ARGS) const { return good(); } };
struct Args : Own { datatype_t get_mpi_datatype(ARGS) { return good(); } };
struct None_Const : Own { datatype_t get_mpi_datatype() const { return good(); } };
struct None : Own { datatype_t get_mpi_datatype() { return good(); } };
// arguments have precedence
struct Both_Const : Own {
	datatype_t get_mpi_datatype(ARGS) const { return good(); }
	datatype_t get_mpi_datatype() const { return bad(); }
};
struct Both : Own {
	datatype_t get_mpi_datatype() { return bad(); }
	datatype_t get_mpi_datatype(ARGS) { return good(); }
};
template<class T> struct Own_Traits {
	static void fill(T& t, Rng& r) { for (int& x : t.a) x = int(r.next()); t.b = int(r.next()); }
	static bool same(const T& a, const T& b) { return a.a[0] == b.a[0] && a.a[1] == b.a[1] && a.a[2] == b.a[2]; }
	static size_t size() { return 12; }
};
template<> struct Traits<Args_Const> : Own_Traits<Args_Const> {};
template<> struct Traits<Args> : Own_Traits<Args> {};
template<> struct Traits<None_Const> : Own_Traits<None_Const> {};
template<> struct Traits<None> : Own_Traits<None> {};
template<> struct Traits<Both_Const> : Own_Traits<Both_Const> {};
template<> struct Traits<Both> : Own_Traits<Both> {};

template<class T> void run(const Case& k, const char* name)
{
	typedef dccrg::Dccrg<T, dccrg::Cartesian_Geometry> Grid;
	Cursor c(k[0]);
	c.next();
	c.next();
	set_perturbation(c.next(), world_rank);
	std::array<u64, 3> L;
	for (auto& x : L) x = 1 + c.below(5);
	const u64 hood = c.below(3), lvl = c.below(3), per = c.below(8), seed = c.next();
	static const char* const methods[] = {"RANDOM", "RCB", "HSFC", "RIB", "BLOCK"};
	const char* const method = methods[c.below(5)];
	const bool single = c.flag();
	note(cat(name, " ", L[0], "x", L[1], "x", L[2], ":"));
	std::unique_ptr<Grid> g(new Grid);
	g->set_initial_length(L).set_neighborhood_length(unsigned(hood)).set_maximum_refinement_level(int(lvl))
		.set_load_balancing_method(method).set_periodic(per & 1, per & 2, per & 4).initialize(MPI_COMM_WORLD);
	g->set_send_single_cells(single);
	u64 version = 0;
	auto value = [&](u64 cell) {
		T t;
		Rng r(mix(mix(seed, version), cell));
		Traits<T>::fill(t, r);
		return t;
	};
	auto set = [&]() {
		version++;
		for (const auto& i : g->local_cells()) *i.data = value(i.id);
	};
	auto check = [&](const char* when) {
		for (const auto& i : g->local_cells()) {
			REQUIRE(Traits<T>::same(*i.data, value(i.id)), "data of cell ", i.id, " of type ", name, " is wrong ", when);
			stats.checks++;
		}
	};
	set();
	for (size_t n = 1; n < k.size(); n++) {
		Cursor q(k[n]);
		switch (q.below(5)) {
		case 0: {
			const u64 p = q.next();
			for (const u64 id : g->get_cells()) if (mix(id, p) % 7 == 0 && g->get_all_cells().size() < 300) g->refine_completely(id);
			g->stop_refining();
			g->clear_refined_unrefined_data();
			set();
			note("refine");
			break;
		}
		case 1:
			for (const auto& i : g->remote_cells()) *i.data = T();
			g->update_copies_of_remote_neighbors();
			for (const auto& i : g->local_cells()) for (const auto& j : i.neighbors_of) {
				REQUIRE(Traits<T>::same(*j.data, value(j.id)), "data of neighbor ", j.id, " of type ", name, " is wrong after an update");
				if (!g->is_local(j.id)) nontrivial_case = true;
				stats.checks++;
			}
			check("after an update");
			note("update");
			break;
		case 2:
			for (const auto& i : g->remote_cells()) *i.data = T();
			g->balance_load();
			check("after load balancing");
			note("balance");
			break;
		case 3: {
			const std::string file = scratch + "/cells.dc";
			int h = 77, h2 = 0;
			REQUIRE(g->save_grid_data(file, 0, std::make_tuple((void*) &h, 1, MPI_INT)), "save_grid_data failed");
			if (world_rank == 0) {
				std::ifstream f(file, std::ios::binary | std::ios::ate);
				const u64 size = u64(f.tellg()), cells = g->get_all_cells().size();
				const u64 head = 4 + 8 + 24 + 4 + 4 + 3 + 4 + 48 + 8;
				REQUIRE(size == head + cells * (16 + Traits<T>::size()), "file of ", cells, " cells of type ", name, " has ", size, " bytes");
			} else g->get_all_cells();
			std::unique_ptr<Grid> g2(new Grid);
			REQUIRE(g2->load_grid_data(file, 0, std::make_tuple((void*) &h2, 1, MPI_INT), MPI_COMM_WORLD, method), "load_grid_data failed");
			REQUIRE(h2 == 77, "loaded header is wrong");
			std::swap(g, g2);
			g->set_send_single_cells(single);
			u64 local[2] = {g->get_cells().size(), g2->get_cells().size()}, all[2];
			MPI_Allreduce(local, all, 2, MPI_UINT64_T, MPI_SUM, MPI_COMM_WORLD);
			REQUIRE(all[0] == all[1], "number of loaded cells");
			check("after loading");
			MPI_Barrier(MPI_COMM_WORLD);
			if (world_rank == 0) unlink(file.c_str());
			MPI_Barrier(MPI_COMM_WORLD);
			note("save+load");
			break;
		}
		case 4:
			set();
			note("data");
			break;
		}
	}
	stats.label(cat("cells of type ", name));
}

struct Type { const char* name; void (*f)(const Case&, const char*); };
#define TYPE(...) {#__VA_ARGS__, &run<__VA_ARGS__>}
static const Type types[] = {
#if PART == 0
	TYPE(char), TYPE(signed char), TYPE(unsigned char), TYPE(short int), TYPE(unsigned short int), TYPE(int), TYPE(unsigned int),
#elif PART == 1
	TYPE(long int), TYPE(unsigned long int), TYPE(long long int), TYPE(unsigned long long int), TYPE(float), TYPE(double), TYPE(long double),
#elif PART == 2
	TYPE(wchar_t), TYPE(bool), TYPE(Args_Const), TYPE(Args), TYPE(None_Const), TYPE(None), TYPE(Both_Const), TYPE(Both),
#elif PART == 3
	TYPE(std::array<char, 3>), TYPE(std::array<signed char, 5>), TYPE(std::array<unsigned char, 1>), TYPE(std::array<short int, 7>),
	TYPE(std::array<unsigned short int, 2>), TYPE(std::array<int, 4>), TYPE(std::array<unsigned int, 3>),
#elif PART == 4
	TYPE(std::array<long int, 2>), TYPE(std::array<unsigned long int, 3>), TYPE(std::array<long long int, 1>),
	TYPE(std::array<unsigned long long int, 5>), TYPE(std::array<float, 9>), TYPE(std::array<double, 3>),
	TYPE(std::array<long double, 2>), TYPE(std::array<wchar_t, 3>),
#endif
#ifdef USE_COMPLEX
	TYPE(std::complex<float>), TYPE(std::complex<double>), TYPE(std::complex<long double>), TYPE(std::array<std::complex<double>, 2>),
	TYPE(std::array<std::complex<float>, 3>), TYPE(std::array<std::complex<long double>, 2>),
#endif
};

static void run_case(const Case& k)
{
	describe.clear();
	nontrivial_case = false;
	if (k.empty()) return;
	const Type& t = types[(k[0].size() > 1 ? k[0][1] : 0) % (sizeof types / sizeof types[0])];
	t.f(k, t.name);
}

static Case generate(u64 seed, u64 index, int np)
{
	Rng r(mix(mix(seed, hash_text(prop)), index));
	Case k(1);
	k[0].push_back(u64(np));
	for (int i = 0; i < 12; i++) k[0].push_back(r.below(1u << 20));
	const u64 n = 4 + r.below(8);
	for (u64 i = 0; i < n; i++) k.push_back({r.below(1u << 20), r.below(1u << 20)});
	return k;
}

#include "main.hpp"
