/*
Cell data used by the grid harness: what is transferred between processes and
saved to files is selected at run time, separately for every purpose, and every
call made by the library is recorded.
*/
#ifndef VP_CELL_HPP
#define VP_CELL_HPP
#include "common.hpp"
#include <mpi.h>
#include <tuple>

namespace vp {

struct Call {
	u64 cell;
	int sender, receiver;
	bool receiving;
	int hood;
};

//! bits 0..7: words w[0]..w[7], bit 8: vector v
typedef unsigned mask_t;

struct Payload {
	std::array<u64, 8> w;
	std::vector<u64> v;
	Payload() { w.fill(0); }
	bool operator==(const Payload& o) const { return w == o.w && v == o.v; }
};

const int hood_default = -0xdcc;

//! what the cells' get_mpi_datatype returns
struct Transfer {
	// [0] default neighborhood, [1..3] user neighborhoods, [4] file, [5] balance, [6] unrefine
	int layout[7] = {0, 0, 0, 0, 0, 0, 0};
	int phase = 0;
	bool saving = false;
	bool record = false;
	std::vector<Call> calls;

	static int slot(int hood)
	{
		if (hood == hood_default) return 0;
		if (hood == -1) return 4;
		if (hood == -2) return 5;
		if (hood == -3) return 6;
		return 1 + ((hood % 3) + 3) % 3;
	}
	int get(int hood) const { return layout[slot(hood)]; }
};

extern Transfer transfer;

const int
	L_words = 0,   // w[0..3] as 4 x uint64
	L_struct = 1,  // w[0..6] as a struct datatype
	L_contig = 2,  // w[0..3] as 2 x (contiguous pair)
	L_one = 3,     // w[4]
	L_none = 4,    // nothing
	L_var = 5,     // w[7] in the first phase, v in the second
	L_bytes = 6,   // w[0..3] as bytes
	L_strided = 7, // w[0] and w[2]
	L_split = 8,   // file only: saved as L_struct, loaded in two steps
	n_layouts = 8;

//! what is transferred in given phase
inline mask_t mask_of(int layout, int phase)
{
	switch (layout) {
	case L_words: case L_contig: case L_bytes: return 0x0f;
	case L_struct: return 0x7f;
	case L_one: return 0x10;
	case L_none: return 0;
	case L_var: return phase == 0 ? 0x80 : 0x100;
	case L_strided: return 0x05;
	case L_split: return phase == 0 ? 0x0f : 0x70;
	}
	return 0;
}

template<class A, class B> void overlay(mask_t m, const A& from, B& to)
{
	for (int i = 0; i < 8; i++) if (m & (1u << i)) to.w[i] = from.w[i];
	if (m & 0x100) to.v = from.v;
}

template<int Tag> struct CellT {
	std::array<u64, 8> w;
	std::vector<u64> v;
	CellT() { w.fill(0); }

	std::tuple<void*, int, MPI_Datatype> get_mpi_datatype(
		const uint64_t cell_id, const int sender, const int receiver,
		const bool receiving, const int hood
	) const {
		if (transfer.record) transfer.calls.push_back({cell_id, sender, receiver, receiving, hood});
		u64* const p = const_cast<u64*>(w.data());
		MPI_Datatype t = MPI_DATATYPE_NULL;
		switch (transfer.get(hood)) {
		case L_words: return std::make_tuple((void*) p, 4, MPI_UINT64_T);
		case L_struct: return full(p);
		case L_contig:
			MPI_Type_contiguous(2, MPI_UINT64_T, &t);
			return std::make_tuple((void*) p, 2, t);
		case L_one: return std::make_tuple((void*) (p + 4), 1, MPI_UINT64_T);
		case L_none: return std::make_tuple((void*) p, 0, MPI_BYTE);
		case L_var:
			if (transfer.saving) {
				// number of items followed by the items
				int lengths[2] = {1, int(v.size())};
				MPI_Aint a0, a1 = 0, disp[2];
				MPI_Get_address(p + 7, &a0);
				if (!v.empty()) MPI_Get_address(const_cast<u64*>(v.data()), &a1);
				disp[0] = 0;
				disp[1] = v.empty() ? 0 : a1 - a0;
				MPI_Datatype types[2] = {MPI_UINT64_T, MPI_UINT64_T};
				MPI_Type_create_struct(v.empty() ? 1 : 2, lengths, disp, types, &t);
				return std::make_tuple((void*) (p + 7), 1, t);
			}
			if (transfer.phase == 0) return std::make_tuple((void*) (p + 7), 1, MPI_UINT64_T);
			return std::make_tuple((void*) v.data(), int(v.size()), MPI_UINT64_T);
		case L_bytes: return std::make_tuple((void*) p, 32, MPI_BYTE);
		case L_strided:
			MPI_Type_vector(2, 1, 2, MPI_UINT64_T, &t);
			return std::make_tuple((void*) p, 1, t);
		case L_split:
			if (transfer.saving) return full(p);
			if (transfer.phase == 0) return std::make_tuple((void*) p, 4, MPI_UINT64_T);
			return std::make_tuple((void*) (p + 4), 3, MPI_UINT64_T);
		}
		return std::make_tuple((void*) p, 0, MPI_BYTE);
	}

private:
	static std::tuple<void*, int, MPI_Datatype> full(u64* const p)
	{
		int lengths[3] = {4, 1, 2};
		MPI_Aint disp[3] = {0, 4 * 8, 5 * 8};
		MPI_Datatype types[3] = {MPI_UINT64_T, MPI_UINT64_T, MPI_UINT64_T}, t;
		MPI_Type_create_struct(3, lengths, disp, types, &t);
		return std::make_tuple((void*) p, 1, t);
	}
};

template<int Tag> Payload payload(const CellT<Tag>& c)
{
	Payload p;
	p.w = c.w;
	p.v = c.v;
	return p;
}

inline std::string show(const Payload& p)
{
	std::ostringstream o;
	for (const u64 x : p.w) o << (x % 100000) << " ";
	o << "|";
	for (const u64 x : p.v) o << " " << (x % 100000);
	return o.str();
}

} // namespace
#endif
