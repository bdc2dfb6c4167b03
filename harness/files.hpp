/*
Saving a grid to a file and loading it with another number of processes.
*/
#ifndef VP_FILES_HPP
#define VP_FILES_HPP
#include "checks.hpp"
#include <sys/stat.h>

namespace vp {

//! decides another property for a while
struct As_Property {
	std::string old;
	bool trivial;
	explicit As_Property(const char* p) : old(prop), trivial(nontrivial_case) { prop = p; }
	~As_Property() { prop = old; nontrivial_case = trivial; }
};

//! data of a cell in the file
inline std::vector<u64> file_words(int layout, const Payload& p)
{
	std::vector<u64> r;
	switch (layout) {
	case L_words: case L_contig: case L_bytes: for (int i = 0; i < 4; i++) r.push_back(p.w[size_t(i)]); break;
	case L_struct: case L_split: for (int i = 0; i < 7; i++) r.push_back(p.w[size_t(i)]); break;
	case L_one: r.push_back(p.w[4]); break;
	case L_var: r.push_back(p.w[7]); r.insert(r.end(), p.v.begin(), p.v.end()); break;
	case L_strided: r.push_back(p.w[0]); r.push_back(p.w[2]); break;
	}
	return r;
}
inline mask_t file_mask(int layout)
{
	mask_t m = mask_of(layout, 0);
	if (layout == L_var || layout == L_split) m |= mask_of(layout, 1);
	return m;
}

//! header in front of grid data: bytes, numbers or a user defined datatype
struct Header {
	std::vector<unsigned char> bytes;
	u64 kind;
	void make(u64 k, u64 n, u64 seed)
	{
		kind = k % 3;
		const size_t unit = kind == 0 ? 1 : kind == 1 ? 8 : 6;
		Rng r(seed);
		bytes.resize(unit * n);
		for (auto& b : bytes) b = (unsigned char) r.next();
	}
	std::tuple<void*, int, MPI_Datatype> get(std::vector<unsigned char>& buffer, bool used = true) const
	{
		if (buffer.empty()) buffer.push_back(0);
		if (kind == 0) return std::make_tuple((void*) buffer.data(), int(bytes.size()), MPI_BYTE);
		if (kind == 1) return std::make_tuple((void*) buffer.data(), int(bytes.size() / 8), MPI_UINT64_T);
		// datatypes are freed only by processes that write the header
		if (!used) return std::make_tuple((void*) buffer.data(), int(bytes.size() / 2), MPI_SHORT);
		MPI_Datatype t;
		MPI_Type_contiguous(3, MPI_SHORT, &t);
		return std::make_tuple((void*) buffer.data(), int(bytes.size() / 6), t);
	}
};

//! contents of a file from given byte onwards
struct Contents {
	size_t base = 0;
	std::vector<unsigned char> bytes;
	size_t size() const { return base + bytes.size(); }
	const unsigned char* at(size_t p) const { return bytes.data() + (p - base); }
};

struct Reader {
	const Contents& b;
	size_t p;
	template<class T> T get(const char* what)
	{
		REQUIRE(p + sizeof(T) <= b.size(), "file ends before ", what);
		T t;
		memcpy(&t, b.at(p), sizeof t);
		p += sizeof t;
		return t;
	}
};

inline Contents slurp(const std::string& name, u64 offset)
{
	Contents c;
	// holes of large files aren't read
	if (offset > 1000000) c.base = offset;
	std::ifstream f(name, std::ios::binary | std::ios::ate);
	if (!f) return c;
	if (u64(f.tellg()) < c.base) c.base = u64(f.tellg()) > 1000000 ? u64(f.tellg()) : 0;
	f.seekg(std::streamoff(c.base));
	c.bytes.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	return c;
}

//! usually small, sometimes one that doesn't fit in 31 or 32 bits
inline u64 file_offset(Cursor& c, u64 limit)
{
	const u64 kind = c.below(12), small = c.below(limit);
	switch (kind) {
	case 0: case 1: case 2: case 3: return 0;
	case 4: return (u64(1) << 31) - limit / 2 + small;
	case 5: return (u64(1) << 32) - limit / 2 + small;
	default: return small;
	}
}

template<class E> void check_grid_info(const E& e, Reader& r, const std::string& file)
{
	const size_t start = r.p;
	REQUIRE(r.get<u64>("endianness check") == 0x1234567890abcdefull, "endianness check isn't in the file");
	for (int d = 0; d < 3; d++) REQUIRE(r.get<u64>("length") == e.cfg.L[size_t(d)], "length of grid in file");
	REQUIRE(r.get<int>("level") == e.cfg.max, "maximum refinement level in file");
	REQUIRE(r.get<unsigned>("neighborhood length") == e.cfg.hood, "neighborhood length in file");
	for (int d = 0; d < 3; d++) REQUIRE((r.get<uint8_t>("topology") != 0) == e.cfg.per[d], "periodicity in file");
	const int id = r.get<int>("geometry id");
	switch (e.geometry) {
	case 0: REQUIRE(id == dccrg::No_Geometry::geometry_id, "geometry id in file"); break;
	case 1:
		REQUIRE(id == dccrg::Cartesian_Geometry::geometry_id, "geometry id in file");
		for (size_t d = 0; d < 3; d++) REQUIRE(r.get<double>("geometry start") == e.coords[d][0], "geometry start in file");
		for (size_t d = 0; d < 3; d++) REQUIRE(r.get<double>("cell length") == e.coords[d][1] - e.coords[d][0], "cell length in file");
		break;
	case 2:
		REQUIRE(id == dccrg::Stretched_Cartesian_Geometry::geometry_id, "geometry id in file");
		for (size_t d = 0; d < 3; d++) REQUIRE(r.get<u64>("coordinates") == e.coords[d].size(), "number of coordinates in file");
		for (size_t d = 0; d < 3; d++) for (const double x : e.coords[d]) REQUIRE(r.get<double>("coordinates") == x, "coordinates in file");
		break;
	}
	REQUIRE(r.p - start == 8 + e.g->mapping.data_size() + 4 + e.g->topology.data_size() + e.g->geometry.data_size(),
		"size of parameters in file differs from what data_size() of mapping, topology and geometry tell");
	// same by other ways of reading
	std::ifstream f(file, std::ios::binary);
	f.seekg(std::streamoff(start + 8));
	dccrg::Mapping m;
	REQUIRE(m.read(f), "cannot read mapping from stream");
	REQUIRE(m.length.get() == e.cfg.L && m.get_maximum_refinement_level() == e.cfg.max, "mapping read from stream differs");
	f.seekg(4, std::ios::cur);
	dccrg::Grid_Topology t;
	REQUIRE(t.read(f), "cannot read topology from stream");
	for (int d = 0; d < 3; d++) REQUIRE(t.is_periodic(size_t(d)) == e.cfg.per[d], "topology read from stream differs");
	if (e.geometry == 1) {
		dccrg::Cartesian_Geometry g(m.length, m, t);
		REQUIRE(g.read(f), "cannot read geometry from stream");
		for (size_t d = 0; d < 3; d++) {
			REQUIRE(g.get().start[d] == e.coords[d][0], "geometry read from stream differs");
			REQUIRE(g.get().level_0_cell_length[d] == e.coords[d][1] - e.coords[d][0], "geometry read from stream differs");
		}
	}
}

//! data of given cell in given place of the file
template<class E> size_t check_cell_data(const E& e, const Contents& b, size_t where, u64 id)
{
	const std::vector<u64> w = file_words(transfer.layout[4], e.data.at(id));
	if (w.empty()) return 0;
	REQUIRE(where >= b.base && where + 8 * w.size() <= b.size(), "data of cell ", id, " is outside of the file");
	REQUIRE(w.empty() || memcmp(b.at(where), w.data(), 8 * w.size()) == 0, "data of cell ", id, " in the file differs");
	stats.checks++;
	return 8 * w.size();
}

template<class E> void prepare_file(E& e, Cursor& c, const std::string& file, std::vector<unsigned char>& before)
{
	const bool exists = c.below(3) == 0;
	const u64 old = c.below(6000) * exists, seed = c.next();
	before.clear();
	Rng r(seed);
	for (u64 i = 0; i < old; i++) before.push_back((unsigned char) r.next());
	if (e.rank == 0) {
		unlink(file.c_str());
		if (old > 0) {
			std::ofstream f(file, std::ios::binary);
			f.write((const char*) before.data(), std::streamsize(before.size()));
		}
	}
	MPI_Barrier(e.comm);
}

inline void check_front(const Contents& b, const std::vector<unsigned char>& before, u64 offset, const Header& h)
{
	REQUIRE(b.size() >= before.size(), "file has ", b.size(), " bytes instead of at least ", before.size());
	if (!h.bytes.empty()) REQUIRE(b.size() >= offset + h.bytes.size(), "file has ", b.size(), " bytes");
	for (size_t i = b.base; i < offset && i < before.size(); i++) REQUIRE(i < b.size() && *b.at(i) == before[i], "byte ", i, " before offset ", offset, " was changed");
	if (!h.bytes.empty()) REQUIRE(std::equal(h.bytes.begin(), h.bytes.end(), b.at(offset)), "header in the file differs");
}

template<class A, class B> void check_same_grid(const A& a, const B& b)
{
	REQUIRE(a.lv.ids == b.lv.ids, "cells of loaded grid differ: ", b.lv.size(), " instead of ", a.lv.size());
	REQUIRE(b.g->length.get() == a.cfg.L, "length of loaded grid differs");
	REQUIRE(b.g->get_initialized() && b.g->get_mapping_initialized(), "loaded grid isn't initialized");
	REQUIRE(b.g->get_maximum_refinement_level() == a.cfg.max, "maximum refinement level of loaded grid differs");
	REQUIRE(b.g->get_neighborhood_length() == a.cfg.hood, "neighborhood length of loaded grid differs");
	for (size_t d = 0; d < 3; d++) REQUIRE(b.g->topology.is_periodic(d) == a.cfg.per[d], "periodicity of loaded grid differs");
	for (const u64 id : a.lv.ids) {
		REQUIRE(a.g->geometry.get_min(id) == b.g->geometry.get_min(id) && a.g->geometry.get_max(id) == b.g->geometry.get_max(id),
			"geometry of cell ", id, " differs");
	}
}

//! a grid obtained in some other way than by refining works as any other
template<class E> void check_works(E& x, u64 seed)
{
	Rng r(seed);
	{ As_Property p("C04"); check_ownership(x, r.next()); }
	{ As_Property p("C06"); check_neighbors(x); }
	{ As_Property p("C12"); check_iterators(x, r.next()); }
	{
		As_Property p("C08");
		x.set_all_data();
		for (const auto& h : x.hoods) x.update(h.first, r.below(1024));
	}
}

template<class E, class G> void save_and_load(E& e, Cursor& c, const std::string& scratch)
{
	const std::string file = scratch + "/grid.dc";
	std::vector<unsigned char> before;
	prepare_file(e, c, file, before);
	const u64 offset = file_offset(c, 100);
	Header h;
	const u64 hk = c.next(), hn = c.below(5), hs = c.next();
	h.make(hk, hn, hs);
	const int layout = transfer.layout[4];

	std::vector<unsigned char> buffer = h.bytes;
	transfer.saving = true;
	const bool everyone = c.flag();
	bool ok = e.rank == 0 || everyone
		? e.g->save_grid_data(file, MPI_Offset(offset), h.get(buffer, e.rank == 0))
		: e.g->save_grid_data(file, MPI_Offset(offset), std::make_tuple((void*) nullptr, 0, MPI_BYTE));
	transfer.saving = false;
	REQUIRE(ok, "save_grid_data failed");
	e.check_local_data("after saving");
	MPI_Barrier(e.comm);

	if (e.rank == 0) {
		const Contents b = slurp(file, offset);
		check_front(b, before, offset, h);
		Reader r{b, size_t(offset) + h.bytes.size()};
		check_grid_info(e, r, file);
		const u64 n = r.get<u64>("number of cells");
		REQUIRE(n == e.lv.size(), "number of cells in file is ", n, " instead of ", e.lv.size());
		std::vector<std::pair<u64, u64>> list;
		std::set<u64> ids;
		for (u64 i = 0; i < n; i++) {
			const u64 id = r.get<u64>("cell list"), o = r.get<u64>("cell list");
			REQUIRE(e.lv.has(id) && ids.insert(id).second, "wrong cell ", id, " in file");
			list.push_back({id, o});
		}
		for (const auto& i : list) {
			REQUIRE(i.second == r.p, "data of cell ", i.first, " starts at ", i.second, " instead of ", r.p);
			r.p += check_cell_data(e, b, i.second, i.first);
		}
		if (before.size() <= r.p) REQUIRE(b.size() == r.p, "file has ", b.size(), " bytes instead of ", r.p);
		stats.label("files parsed");
	}
	MPI_Barrier(e.comm);

	// load with same or another number of processes
	const bool same = c.flag();
	const int np2 = same ? e.np : 1 + int(c.below(u64(e.np)));
	const bool reverse = c.flag(), step_by_step = c.flag() || layout == L_var || layout == L_split;
	const std::string method = methods()[c.below(7)];
	const bool go_on = c.below(3) != 0, missing = c.below(8) == 0;
	const u64 seed = c.next();
	MPI_Comm sub;
	MPI_Comm_split(e.comm, e.rank < np2 ? 0 : MPI_UNDEFINED, reverse ? -e.rank : e.rank, &sub);
	if (sub != MPI_COMM_NULL) {
		if (missing) {
			G* const none = new G;
			std::vector<unsigned char> tmp(h.bytes.size() + 1);
			const long types = handles.types;
			const bool loaded = none->load_grid_data(scratch + "/doesn't exist", 0, h.get(tmp), sub, method.c_str());
			REQUIRE(!loaded, "loading of a file that doesn't exist succeeded");
			// header wasn't used
			handles.types = types;
			delete none;
		}
		E e2;
		e2.init(e.cfg, sub);
		e2.g = new G;
		std::vector<unsigned char> got(h.bytes.size(), 0);
		transfer.phase = 0;
		if (!step_by_step) {
			ok = e2.g->load_grid_data(file, MPI_Offset(offset), h.get(got), sub, method.c_str());
		} else {
			ok = e2.g->start_loading_grid_data(file, MPI_Offset(offset), h.get(got), sub, method.c_str());
			REQUIRE(ok, "start_loading_grid_data failed");
			ok = e2.g->continue_loading_grid_data();
			if (layout == L_var || layout == L_split) {
				REQUIRE(ok, "continue_loading_grid_data failed");
				transfer.phase = 1;
				for (const u64 id : e2.g->get_cells()) {
					auto* const d = (*e2.g)[id];
					REQUIRE(d != nullptr, "no data for loaded cell ", id);
					REQUIRE(e.lv.has(id), "cell ", id, " wasn't in the file");
					if (layout == L_var) {
						REQUIRE(d->w[7] == e.data.at(id).w[7], "loaded data of cell ", id, " differs");
						d->v.resize(d->w[7]);
					}
				}
				ok = e2.g->continue_loading_grid_data();
				transfer.phase = 0;
			}
			ok = e2.g->finish_loading_grid_data() && ok;
		}
		REQUIRE(ok, "load_grid_data failed");
		got.resize(h.bytes.size());
		REQUIRE(got == h.bytes, "loaded header differs");
		e2.g->set_send_single_cells(e.cfg.single);
		e2.sync();
		check_same_grid(e, e2);
		e2.version = e.version;
		for (const u64 id : e2.lv.ids) {
			Payload p;
			overlay(file_mask(layout), e.data.at(id), p);
			e2.data[id] = p;
		}
		e2.check_local_data("after loading");
		stats.label(np2 == e.np ? "loaded with same number of processes" : "loaded with another number of processes");
		bool levels = false;
		for (const u64 id : e.lv.ids) if (e.lv.level(id) != e.lv.level(e.lv.ids[0])) levels = true;
		if (levels || e.np > 1) nontrivial_case = true;
		if (go_on && np2 == e.np) {
			// history continues with loaded grid
			{ As_Property p("C04"); check_ownership(e2, seed); }
			{ As_Property p("C06"); check_neighbors(e2); }
			{ As_Property p("C12"); check_iterators(e2, seed); }
			delete e.g;
			e = e2;
		} else {
			check_works(e2, seed);
			delete e2.g;
			MPI_Comm_free(&sub);
		}
	}
	MPI_Barrier(e.comm);
	if (e.rank == 0) unlink(file.c_str());
}

//! refines a new grid to have the same cells
template<class E, class G> void load_leaves(E& e, Cursor& c)
{
	E e2;
	e2.init(e.cfg, e.comm);
	e2.cfg.method = methods()[c.below(7)];
	e2.create();
	std::vector<u64> cells;
	const bool all = c.flag();
	for (const u64 id : e.lv.ids) if (all || e2.g->cell_overlaps_local(id)) cells.push_back(id);
	Rng r(c.next());
	for (size_t i = cells.size(); i > 1; i--) std::swap(cells[i - 1], cells[r.below(i)]);
	const bool ok = e2.g->load_cells(cells);
	REQUIRE(ok, "load_cells failed");
	e2.sync();
	check_same_grid(e, e2);
	stats.label("cells loaded", e2.lv.size());
	check_works(e2, c.next());
	delete e2.g;
}

template<class E> void save_subset(E& e, Cursor& c, const std::string& scratch)
{
	const std::string file = scratch + "/part.dc";
	std::vector<unsigned char> before;
	prepare_file(e, c, file, before);
	const u64 offset = file_offset(c, 60);
	Header h;
	const u64 hk = c.next(), hn = c.below(5), hs = c.next();
	h.make(hk, hn, hs);
	const bool info = c.below(3) != 0, ids = c.below(3) != 0, offsets = c.below(3) != 0, everything = c.below(3) == 0;
	// part of cells of each process in some order
	Rng r(c.next());
	std::vector<std::vector<u64>> parts(static_cast<size_t>(e.np));
	for (const auto& i : e.lv.owner) {
		auto& p = parts[size_t(i.second)];
		if (p.empty() || r.chance(50)) p.insert(p.begin() + long(r.below(p.size() + 1)), i.first);
	}
	std::vector<unsigned char> buffer = h.bytes;
	transfer.saving = true;
	const bool ok = e.g->save_grid_data(file, MPI_Offset(offset), h.get(buffer, e.rank == 0),
		everything ? std::vector<u64>() : parts[size_t(e.rank)], info, ids, offsets);
	transfer.saving = false;
	REQUIRE(ok, "save_grid_data failed");
	MPI_Barrier(e.comm);
	if (everything) {
		// order of cells isn't specified
		std::vector<int> from;
		parts.assign(parts.size(), std::vector<u64>());
		const std::vector<u64> list = e.gather(e.g->get_cells(), &from);
		for (size_t i = 0; i < list.size(); i++) parts[size_t(from[i])].push_back(list[i]);
	}
	if (e.rank == 0) {
		const Contents b = slurp(file, offset);
		check_front(b, before, offset, h);
		Reader q{b, size_t(offset) + h.bytes.size()};
		std::vector<u64> want;
		for (const auto& p : parts) want.insert(want.end(), p.begin(), p.end());
		if (info) {
			check_grid_info(e, q, file);
			const u64 n = q.get<u64>("number of cells");
			REQUIRE(n == want.size(), "number of cells in file is ", n, " instead of ", want.size());
		}
		std::vector<u64> got = want, where;
		for (size_t i = 0; i < want.size(); i++) {
			if (ids) got[i] = q.get<u64>("cell list");
			if (offsets) where.push_back(q.get<u64>("cell list"));
		}
		REQUIRE(std::set<u64>(got.begin(), got.end()) == std::set<u64>(want.begin(), want.end()), "wrong cells in file");
		for (size_t i = 0; i < want.size(); i++) {
			if (offsets) REQUIRE(where[i] == q.p, "data of cell ", got[i], " starts at ", where[i], " instead of ", q.p);
			q.p += check_cell_data(e, b, q.p, got[i]);
		}
		// nothing to write is also possible
		if (before.size() <= q.p && q.p > offset) REQUIRE(b.size() == q.p, "file has ", b.size(), " bytes instead of ", q.p);
		unlink(file.c_str());
		stats.label("partial files parsed");
	}
	// cells of this process for visualization
	const std::string vtk = cat(scratch, "/cells.", e.rank, ".vtk");
	REQUIRE(e.g->write_vtk_file(vtk), "write_vtk_file failed");
	{
		std::ifstream f(vtk);
		std::string line, word;
		for (int i = 0; i < 4; i++) std::getline(f, line);
		std::vector<u64> mine;
		for (const u64 id : e.lv.ids) if (e.mine(id)) mine.push_back(id);
		u64 n = 0;
		f >> word >> n >> line;
		REQUIRE(word == "POINTS" && n == 8 * mine.size(), "wrong number of points in vtk file");
		for (const u64 id : mine) {
			const auto a = e.g->geometry.get_min(id), z = e.g->geometry.get_max(id);
			for (int k = 0; k < 8; k++) {
				for (int d = 0; d < 3; d++) {
					double x = 0;
					f >> x;
					const double w = (k >> d) & 1 ? z[size_t(d)] : a[size_t(d)];
					REQUIRE(!f.fail() && std::fabs(x - w) <= 1e-5 * std::max(1.0, std::fabs(w)), "wrong point of cell ", id, " in vtk file");
				}
			}
		}
		u64 m = 0;
		f >> word >> n >> m;
		REQUIRE(word == "CELLS" && n == mine.size() && m == 9 * n, "wrong number of cells in vtk file");
		for (u64 i = 0; i < n; i++) {
			f >> m;
			REQUIRE(m == 8, "wrong number of points of a cell in vtk file");
			for (u64 k = 0; k < 8; k++) {
				f >> m;
				REQUIRE(m == 8 * i + k, "wrong points of a cell in vtk file");
			}
		}
		f >> word >> n;
		REQUIRE(word == "CELL_TYPES" && n == mine.size(), "wrong number of cell types in vtk file");
		for (u64 i = 0; i < n; i++) {
			f >> m;
			REQUIRE(m == 11 && !f.fail(), "wrong cell type in vtk file");
		}
	}
	unlink(vtk.c_str());
	MPI_Barrier(e.comm);
}

} // namespace
#endif
