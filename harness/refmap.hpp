/*
Independent reference for cell ids: every id is a (level, x, y, z) position,
computed here with 128 bit integers directly from the documented numbering
(ids start from 1, level by level, x fastest).
*/
#ifndef VP_REFMAP_HPP
#define VP_REFMAP_HPP
#include "common.hpp"

namespace vp {

typedef unsigned __int128 u128;
typedef std::array<u64, 3> idx3;

struct Pos {
	int lvl;
	idx3 p; // position in units of cells of lvl
	bool operator<(const Pos& o) const { return lvl != o.lvl ? lvl < o.lvl : p < o.p; }
	bool operator==(const Pos& o) const { return lvl == o.lvl && p == o.p; }
};

struct RefMap {
	idx3 L;
	int max;

	u128 level_count(int lvl) const
	{
		u128 n = u128(L[0]) * L[1] * L[2];
		for (int i = 0; i < lvl; i++) n *= 8;
		return n;
	}
	// number of ids before given level
	u128 before(int lvl) const
	{
		u128 n = 0;
		for (int i = 0; i < lvl; i++) n += level_count(i);
		return n;
	}
	u128 last() const { return before(max + 1); }
	u64 dim(int d, int lvl) const { return L[d] << lvl; }
	u64 id(const Pos& c) const
	{
		u128 v = before(c.lvl) + 1;
		v += c.p[0];
		v += u128(c.p[1]) * dim(0, c.lvl);
		v += u128(c.p[2]) * dim(0, c.lvl) * dim(1, c.lvl);
		return u64(v);
	}
	// id must be valid
	Pos pos(u64 id_) const
	{
		Pos r;
		u128 v = id_;
		v -= 1;
		r.lvl = 0;
		while (v >= level_count(r.lvl)) {
			v -= level_count(r.lvl);
			r.lvl++;
		}
		r.p[0] = u64(v % dim(0, r.lvl));
		v /= dim(0, r.lvl);
		r.p[1] = u64(v % dim(1, r.lvl));
		r.p[2] = u64(v / dim(1, r.lvl));
		return r;
	}
	bool valid(u64 id_) const { return id_ >= 1 && u128(id_) <= last(); }
	int level(u64 id_) const { return valid(id_) ? pos(id_).lvl : -1; }
	u64 len(int lvl) const { return u64(1) << (max - lvl); }
	idx3 indices(const Pos& c) const
	{
		return {{c.p[0] << (max - c.lvl), c.p[1] << (max - c.lvl), c.p[2] << (max - c.lvl)}};
	}
	Pos parent(const Pos& c) const { return {c.lvl - 1, {{c.p[0] / 2, c.p[1] / 2, c.p[2] / 2}}}; }
	std::array<Pos, 8> children(const Pos& c) const
	{
		std::array<Pos, 8> r;
		for (unsigned i = 0; i < 8; i++) {
			r[i] = {c.lvl + 1, {{2 * c.p[0] + (i & 1), 2 * c.p[1] + ((i >> 1) & 1), 2 * c.p[2] + (i >> 2)}}};
		}
		return r;
	}
	Pos at(const idx3& i, int lvl) const
	{
		return {lvl, {{i[0] >> (max - lvl), i[1] >> (max - lvl), i[2] >> (max - lvl)}}};
	}
};

// number of level 0 cells with given lengths fits into 64 bits
inline u128 product(const idx3& l) { return u128(l[0]) * l[1] * l[2]; }

inline int ref_max_possible(const idx3& l)
{
	const u128 top = u128(~u64(0));
	u128 sum = 0, n = product(l);
	int lvl = 0;
	while (true) {
		sum += n;
		if (sum > top) return lvl - 1;
		n *= 8;
		lvl++;
	}
}

} // namespace
#endif
