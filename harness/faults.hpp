/*
File operations that fail and files that are incomplete or of other kind.
Built so that abort() of the library throws.
*/
#ifndef VP_FAULTS_HPP
#define VP_FAULTS_HPP
#include "files.hpp"
#include <unistd.h>

namespace vp {

//! stops counting and failing
struct Fault_Scope {
	Fault_Scope() { file_faults = File_Faults(); }
	~Fault_Scope()
	{
		file_faults.close_all();
		file_faults = File_Faults();
		transfer.saving = false;
		transfer.phase = 0;
	}
};

//! true if reported to have succeeded
template<class F> bool succeeds(F f)
{
	try {
		return f();
	} catch (const Violation&) {
		throw;
	} catch (const std::exception&) {
		// the library would have stopped the program
		return false;
	}
}

template<class E> bool load(E& e, E& e2, const std::string& file, u64 offset, const Header& h, MPI_Comm comm, const std::string& method)
{
	const int layout = transfer.layout[4];
	std::vector<unsigned char> got(h.bytes.size() + 1, 0);
	bool ok = false;
	if (layout != L_var && layout != L_split) {
		ok = e2.g->load_grid_data(file, MPI_Offset(offset), h.get(got), comm, method.c_str());
	} else {
		ok = e2.g->start_loading_grid_data(file, MPI_Offset(offset), h.get(got), comm, method.c_str());
		if (!ok) return false;
		ok = e2.g->continue_loading_grid_data();
		if (!ok) return false;
		transfer.phase = 1;
		for (const u64 id : e2.g->get_cells()) {
			auto* const d = (*e2.g)[id];
			REQUIRE(d != nullptr && e.lv.has(id), "cell ", id, " doesn't exist but loading didn't fail");
			if (layout == L_var) {
				REQUIRE(d->w[7] == e.data.at(id).w[7], "part of data of cell ", id, " wasn't loaded but loading didn't fail");
				d->v.resize(d->w[7]);
			}
		}
		ok = e2.g->continue_loading_grid_data();
		if (!ok) return false;
		ok = e2.g->finish_loading_grid_data();
	}
	if (!ok) return false;
	got.resize(h.bytes.size());
	REQUIRE(got == h.bytes, "header wasn't loaded but loading didn't fail");
	return true;
}

//! reading the beginning of a file without MPI
template<class E> void read_short_stream(const E& e, const std::string& file, u64 start, u64 end, u64 cut, u64 part, u64 wrong)
{
	std::vector<unsigned char> b(end - start);
	{
		std::ifstream f(file, std::ios::binary);
		f.seekg(std::streamoff(start));
		f.read((char*) b.data(), std::streamsize(b.size()));
		REQUIRE(f.good(), "file is too short");
	}
	const std::string tmp = file + ".part";
	// mapping, length of neighborhood, topology and geometry
	const size_t at[3] = {0, 28 + 4, 28 + 4 + 3}, size[3] = {28, 3, 4 + 6 * 8};
	part %= e.geometry == 1 ? 3 : 2;
	const bool id = part == 2 && wrong % 3 == 0;
	if (id) b[at[2] + wrong / 3 % 4] ^= (unsigned char) (1 + wrong % 255);
	{
		std::ofstream f(tmp, std::ios::binary);
		f.write((const char*) b.data() + at[part], std::streamsize(id ? size[part] : cut % size[part]));
	}
	dccrg::Mapping m = e.g->mapping;
	dccrg::Grid_Topology t;
	dccrg::Cartesian_Geometry g(m.length, m, t);
	std::ifstream f(tmp, std::ios::binary);
	const bool ok = succeeds([&]() { return part == 0 ? m.read(f) : part == 1 ? t.read(f) : g.read(f); });
	unlink(tmp.c_str());
	REQUIRE(!ok, "reading ", part == 0 ? "mapping" : part == 1 ? "topology" : "geometry",
		id ? " succeeded with another geometry in the file" : " succeeded with only a part of it in the file");
}

template<class E, class G> std::string fail_with_files(E& e, Cursor& c, const std::string& scratch)
{
	const std::string file = scratch + "/fault.dc";
	const u64 offset = file_offset(c, 100);
	Header h;
	const u64 hk = c.next(), hn = c.below(5), hs = c.next();
	h.make(hk, hn, hs);
	const u64 what = c.below(8), where = c.next(), more = c.next(), flips = c.next();
	const std::string method = methods()[c.below(7)];
	static const int errors[5] = {MPI_ERR_IO, MPI_ERR_NO_SPACE, MPI_ERR_QUOTA, MPI_ERR_ACCESS, MPI_ERR_OTHER};

	auto save = [&](const std::string& name) {
		std::vector<unsigned char> buffer = h.bytes;
		transfer.saving = true;
		const bool ok = e.g->save_grid_data(name, MPI_Offset(offset), h.get(buffer, e.rank == 0));
		transfer.saving = false;
		return ok;
	};
	auto remove = [&]() {
		MPI_Barrier(e.comm);
		if (e.rank == 0) unlink(file.c_str());
		MPI_Barrier(e.comm);
	};
	// kind of operation, and which one of those that there are
	auto choose = [&]() {
		const long calls[2] = {file_faults.calls[0], file_faults.calls[1]};
		int kind = 0;
		if (e.np == 1 && where % u64(calls[0] + calls[1] + 1) > u64(calls[0])) kind = 1;
		file_faults = File_Faults();
		file_faults.fail_at[kind] = calls[kind] == 0 ? -1 : long((where / 64) % u64(calls[kind]));
		file_faults.error = errors[more % 5];
		return cat(kind == 0 ? "collective" : "single", " file operation ", file_faults.fail_at[kind]);
	};
	remove();
	if (what < 2) {
		Fault_Scope scope;
		REQUIRE(save(file), "save_grid_data failed");
		const std::string fault = choose();
		if (more / 8 % 2) remove();
		const bool ok = succeeds([&]() { return save(file); });
		// might also work in another way when done again
		if (file_faults.fired) REQUIRE(!ok, "save_grid_data returned true although ", fault, " failed");
		e.check_local_data("after failing to save");
		stats.label("failed operations when saving");
		nontrivial_case = true;
		file_faults.close_all();
		remove();
		return "fail to save";
	}
	if (what == 2) {
		Fault_Scope scope;
		const bool ok = succeeds([&]() { return save(scratch + "/doesn't exist/" + "grid.dc"); });
		REQUIRE(!ok, "save_grid_data to a folder that doesn't exist returned true");
		e.check_local_data("after failing to save");
		stats.label("failed operations when saving");
		return "save nowhere";
	}
	REQUIRE(save(file), "save_grid_data failed");
	MPI_Barrier(e.comm);
	Fault_Scope scope;
	E e2;
	e2.init(e.cfg, e.comm);
	e2.g = new G;
	std::string fault;
	bool allowed = false;
	if (e.rank == 0) {
		const u64 start = offset + h.bytes.size() + 8;
		read_short_stream(e, file, start, start + 28 + 4 + 3 + (e.geometry == 1 ? 52 : 4), flips, more / 16, where / 3);
	}
	if (what < 5) {
		REQUIRE(load(e, e2, file, offset, h, e.comm, method), "load_grid_data failed");
		delete e2.g;
		e2.g = new G;
		transfer.phase = 0;
		fault = cat("although ", choose(), " failed");
	} else {
		u64 data = 0;
		for (const u64 id : e.lv.ids) data += 8 * file_words(transfer.layout[4], e.data.at(id)).size();
		struct stat s;
		REQUIRE(stat(file.c_str(), &s) == 0, "no file was saved");
		const u64 size = u64(s.st_size), list = size - data - 16 * e.lv.size(), header = offset + h.bytes.size(), id = header + 8 + 28 + 4 + 3;
		REQUIRE(size >= data + 16 * e.lv.size() + 8 + header, "file has only ", size, " bytes");
		std::vector<unsigned char> with;
		u64 at = 0;
		if (what < 7) {
			const u64 part = more % 8;
			if (part == 0) at = offset + where % (h.bytes.size() + 8);
			else if (part == 1 && e.np == 1) at = where % (list + 1);
			else if (part <= 3 || data == 0) at = list - 8 + where % (16 * e.lv.size() + 8);
			else if (part == 4) at = size - 1 - where % std::min<u64>(data, 16);
			else at = size - data + where % data;
			fault = cat("although only ", at, " of ", size, " bytes of the file are left");
			// enough might be left
			allowed = data == 0;
		} else if (more % 2) {
			// file of a computer that stores numbers in another way
			at = header;
			with = {0xef, 0xcd, 0xab, 0x90, 0x78, 0x56, 0x34, 0x12};
			if (where % 3 == 0) std::reverse(with.begin(), with.end());
			else for (size_t i = 0; i < 8; i++) if (flips & (1u << i)) std::swap(with[i], with[(i + 1 + where % 7) % 8]);
			const u64 original = 0x1234567890abcdefull;
			if (memcmp(with.data(), &original, 8) == 0) with[where % 8] ^= (unsigned char) (1 + flips % 255);
			fault = "although numbers in the file are stored in another way";
		} else {
			// file with other geometry
			at = id;
			int other[3] = {dccrg::No_Geometry::geometry_id, dccrg::Cartesian_Geometry::geometry_id, dccrg::Stretched_Cartesian_Geometry::geometry_id};
			const int now = other[e.geometry], g = other[(size_t(e.geometry) + 1 + where % 2) % 3];
			const int v = where % 3 == 0 ? now + 1 + int(flips % 1000) : g;
			with.resize(4);
			memcpy(with.data(), &v, 4);
			fault = "although the file is of another geometry";
		}
		MPI_Barrier(e.comm);
		if (e.rank == 0) {
			if (with.empty()) REQUIRE(truncate(file.c_str(), off_t(at)) == 0, "harness: cannot truncate");
			else {
				std::fstream f(file, std::ios::binary | std::ios::in | std::ios::out);
				f.seekp(std::streamoff(at));
				f.write((const char*) with.data(), std::streamsize(with.size()));
			}
		}
		MPI_Barrier(e.comm);
	}
	const bool ok = succeeds([&]() { return load(e, e2, file, offset, h, e.comm, method); });
	if (what < 5 && !file_faults.fired) allowed = true;
	if (!allowed) REQUIRE(!ok, "load_grid_data returned true ", fault);
	if (ok) {
		e2.sync();
		check_same_grid(e, e2);
	}
	file_faults.close_all();
	delete e2.g;
	e.check_local_data("after failing to load another grid");
	stats.label(what < 5 ? "failed operations when loading" : what < 7 ? "loaded too short files" : "loaded files of other kind");
	nontrivial_case = true;
	remove();
	return "fail to load";
}

} // namespace
#endif
