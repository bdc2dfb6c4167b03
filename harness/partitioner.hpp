/*
Stands between dccrg and Zoltan: records the query functions that dccrg
registers, lets a check call them and records the new partition, which either
comes from Zoltan or is generated.
Include after zoltan.h and before dccrg.hpp.
*/
#ifndef VP_PARTITIONER_HPP
#define VP_PARTITIONER_HPP
#include "common.hpp"
#ifdef DCCRG_NO_LB
typedef unsigned ZOLTAN_ID_TYPE;
namespace vp {
//! there's nothing to record
struct Partitioner {
	bool fake = false;
	int rank = 0;
	u64 calls = 0;
	std::map<u64, int> now, next, exported, imported;
};
extern Partitioner partitioner;
}
#else
#include <zoltan.h>
#include <functional>
#include <cstdlib>

namespace vp {

struct Queries {
	ZOLTAN_NUM_OBJ_FN* num_obj = nullptr; void* num_obj_data = nullptr;
	ZOLTAN_OBJ_LIST_FN* obj_list = nullptr; void* obj_list_data = nullptr;
	ZOLTAN_NUM_GEOM_FN* num_geom = nullptr; void* num_geom_data = nullptr;
	ZOLTAN_GEOM_MULTI_FN* geom = nullptr; void* geom_data = nullptr;
	ZOLTAN_NUM_EDGES_MULTI_FN* num_edges = nullptr; void* num_edges_data = nullptr;
	ZOLTAN_EDGE_LIST_MULTI_FN* edges = nullptr; void* edges_data = nullptr;
	ZOLTAN_HG_SIZE_CS_FN* hg_size = nullptr; void* hg_size_data = nullptr;
	ZOLTAN_HG_CS_FN* hg = nullptr; void* hg_data = nullptr;
	ZOLTAN_HG_SIZE_EDGE_WTS_FN* hg_wsize = nullptr; void* hg_wsize_data = nullptr;
	ZOLTAN_HG_EDGE_WTS_FN* hg_w = nullptr; void* hg_w_data = nullptr;
	ZOLTAN_HIER_NUM_LEVELS_FN* levels = nullptr; void* levels_data = nullptr;
	ZOLTAN_HIER_PART_FN* part = nullptr; void* part_data = nullptr;
	ZOLTAN_HIER_METHOD_FN* method = nullptr; void* method_data = nullptr;
	std::map<std::string, std::string> params;
};

struct Partitioner {
	std::map<const Zoltan_Struct*, Queries> queries;
	//! called before partitioning
	std::function<void(Zoltan_Struct*, const Queries&)> before;
	//! new processes of cells and old ones for making up a partition
	bool fake = false;
	int rank = 0;
	std::map<u64, int> now, next;
	//! what the partitioner returned on this process
	u64 calls = 0;
	std::map<u64, int> exported, imported;
	//! parameters set while recording
	bool record = false;
	std::vector<std::pair<std::string, std::string>> set;
};
extern Partitioner partitioner;

namespace z {
#define VP_SETTER(name, type, member) \
inline int name(Zoltan_Struct* zz, type* f, void* data) \
{ \
	auto& q = partitioner.queries[zz]; \
	q.member = f; \
	q.member##_data = data; \
	return ::Zoltan_##name(zz, f, data); \
}
VP_SETTER(Set_Num_Obj_Fn, ZOLTAN_NUM_OBJ_FN, num_obj)
VP_SETTER(Set_Obj_List_Fn, ZOLTAN_OBJ_LIST_FN, obj_list)
VP_SETTER(Set_Num_Geom_Fn, ZOLTAN_NUM_GEOM_FN, num_geom)
VP_SETTER(Set_Geom_Multi_Fn, ZOLTAN_GEOM_MULTI_FN, geom)
VP_SETTER(Set_Num_Edges_Multi_Fn, ZOLTAN_NUM_EDGES_MULTI_FN, num_edges)
VP_SETTER(Set_Edge_List_Multi_Fn, ZOLTAN_EDGE_LIST_MULTI_FN, edges)
VP_SETTER(Set_HG_Size_CS_Fn, ZOLTAN_HG_SIZE_CS_FN, hg_size)
VP_SETTER(Set_HG_CS_Fn, ZOLTAN_HG_CS_FN, hg)
VP_SETTER(Set_HG_Size_Edge_Wts_Fn, ZOLTAN_HG_SIZE_EDGE_WTS_FN, hg_wsize)
VP_SETTER(Set_HG_Edge_Wts_Fn, ZOLTAN_HG_EDGE_WTS_FN, hg_w)
VP_SETTER(Set_Hier_Num_Levels_Fn, ZOLTAN_HIER_NUM_LEVELS_FN, levels)
VP_SETTER(Set_Hier_Part_Fn, ZOLTAN_HIER_PART_FN, part)
VP_SETTER(Set_Hier_Method_Fn, ZOLTAN_HIER_METHOD_FN, method)
#undef VP_SETTER

inline int Set_Param(Zoltan_Struct* zz, const char* name, const char* value)
{
	if (partitioner.record) {
		partitioner.set.push_back({name, value});
		return ZOLTAN_OK;
	}
	partitioner.queries[zz].params[name] = value;
	return ::Zoltan_Set_Param(zz, name, value);
}

inline Zoltan_Struct* Copy(const Zoltan_Struct* from)
{
	Zoltan_Struct* ret = ::Zoltan_Copy(from);
	if (ret != nullptr) partitioner.queries[ret] = partitioner.queries[from];
	return ret;
}

inline Zoltan_Struct* Create(MPI_Comm comm)
{
	Zoltan_Struct* ret = ::Zoltan_Create(comm);
	if (ret != nullptr) partitioner.queries[ret] = Queries();
	return ret;
}

inline int LB_Balance(
	Zoltan_Struct* zz, int* changes, int* gids, int* lids,
	int* n_import, ZOLTAN_ID_PTR* import_gids, ZOLTAN_ID_PTR* import_lids, int** import_procs,
	int* n_export, ZOLTAN_ID_PTR* export_gids, ZOLTAN_ID_PTR* export_lids, int** export_procs
) {
	auto& p = partitioner;
	p.calls++;
	if (p.before) p.before(zz, p.queries[zz]);
	int ret = ZOLTAN_OK;
	if (p.fake) {
		std::vector<std::pair<u64, int>> in, out;
		for (const auto& i : p.next) {
			const int from = p.now.at(i.first);
			if (from == i.second) continue;
			if (from == p.rank) out.push_back(i);
			if (i.second == p.rank) in.push_back({i.first, from});
		}
		// order is up to the partitioner
		std::reverse(in.begin(), in.end());
		*changes = 1;
		*gids = 1;
		*lids = 0;
		*n_import = int(in.size());
		*n_export = int(out.size());
		*import_lids = *export_lids = nullptr;
		*import_gids = static_cast<ZOLTAN_ID_PTR>(malloc((in.size() + 1) * sizeof(ZOLTAN_ID_TYPE)));
		*export_gids = static_cast<ZOLTAN_ID_PTR>(malloc((out.size() + 1) * sizeof(ZOLTAN_ID_TYPE)));
		*import_procs = static_cast<int*>(malloc((in.size() + 1) * sizeof(int)));
		*export_procs = static_cast<int*>(malloc((out.size() + 1) * sizeof(int)));
		for (size_t i = 0; i < in.size(); i++) {
			(*import_gids)[i] = ZOLTAN_ID_TYPE(in[i].first);
			(*import_procs)[i] = in[i].second;
		}
		for (size_t i = 0; i < out.size(); i++) {
			(*export_gids)[i] = ZOLTAN_ID_TYPE(out[i].first);
			(*export_procs)[i] = out[i].second;
		}
	} else {
		ret = ::Zoltan_LB_Balance(zz, changes, gids, lids, n_import, import_gids, import_lids, import_procs,
			n_export, export_gids, export_lids, export_procs);
	}
	p.exported.clear();
	p.imported.clear();
	for (int i = 0; i < *n_export; i++) p.exported[(*export_gids)[i]] = (*export_procs)[i];
	for (int i = 0; i < *n_import; i++) p.imported[(*import_gids)[i]] = (*import_procs)[i];
	return ret;
}
} // namespace z
} // namespace vp

#define Zoltan_Set_Num_Obj_Fn vp::z::Set_Num_Obj_Fn
#define Zoltan_Set_Obj_List_Fn vp::z::Set_Obj_List_Fn
#define Zoltan_Set_Num_Geom_Fn vp::z::Set_Num_Geom_Fn
#define Zoltan_Set_Geom_Multi_Fn vp::z::Set_Geom_Multi_Fn
#define Zoltan_Set_Num_Edges_Multi_Fn vp::z::Set_Num_Edges_Multi_Fn
#define Zoltan_Set_Edge_List_Multi_Fn vp::z::Set_Edge_List_Multi_Fn
#define Zoltan_Set_HG_Size_CS_Fn vp::z::Set_HG_Size_CS_Fn
#define Zoltan_Set_HG_CS_Fn vp::z::Set_HG_CS_Fn
#define Zoltan_Set_HG_Size_Edge_Wts_Fn vp::z::Set_HG_Size_Edge_Wts_Fn
#define Zoltan_Set_HG_Edge_Wts_Fn vp::z::Set_HG_Edge_Wts_Fn
#define Zoltan_Set_Hier_Num_Levels_Fn vp::z::Set_Hier_Num_Levels_Fn
#define Zoltan_Set_Hier_Part_Fn vp::z::Set_Hier_Part_Fn
#define Zoltan_Set_Hier_Method_Fn vp::z::Set_Hier_Method_Fn
#define Zoltan_Set_Param vp::z::Set_Param
#define Zoltan_Copy vp::z::Copy
#define Zoltan_Create vp::z::Create
#define Zoltan_LB_Balance vp::z::LB_Balance
#endif // DCCRG_NO_LB
#endif
