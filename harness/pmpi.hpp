/*
Perturbs the schedule of processes: random delays in front of communication
and standard mode sends that complete only after they have been received,
both of which are allowed by the MPI standard.

Also keeps track of messages that haven't been waited for, datatypes that haven't
been freed and files that haven't been closed, and makes given file operation fail.
*/
#ifndef VP_PMPI_HPP
#define VP_PMPI_HPP
#include "common.hpp"
#include <algorithm>
#include <map>
#include <mpi.h>

namespace vp {
static bool perturb_delay = false, perturb_sync = false;
static Rng perturb_rng(1);
inline void set_perturbation(u64 seed, int rank)
{
	perturb_delay = seed % 4 == 1;
	perturb_sync = seed % 8 >= 4;
	perturb_rng = Rng(mix(seed, u64(rank) + 77));
}
inline void maybe_sleep(unsigned percent)
{
	if (!perturb_delay || !perturb_rng.chance(percent)) return;
	usleep(unsigned(perturb_rng.below(400)));
}

//! handles in use
struct Handles {
	std::map<MPI_Request, bool> requests;
	long types = 0, files = 0;
	u64 used = 0;
	void started(MPI_Request r, bool send) 
	{
		used++;
		if (r != MPI_REQUEST_NULL) requests[r] = send;
	}
	long pending(bool send) const
	{
		long n = 0;
		for (const auto& i : requests) if (i.second == send) n++;
		return n;
	}
};
static Handles handles;
//! forgets requests that were completed by given call
template<class F> int completing(int n, MPI_Request r[], F f)
{
	const std::vector<MPI_Request> before(r, r + n);
	const int ret = f();
	for (int i = 0; i < n; i++) if (r[i] == MPI_REQUEST_NULL) handles.requests.erase(before[size_t(i)]);
	return ret;
}
//! operations on files: 0 collective, 1 by one process
struct File_Faults {
	long calls[2] = {0, 0}, fail_at[2] = {-1, -1};
	bool fired = false;
	int error = MPI_ERR_IO;
	std::vector<MPI_File> open;
	bool fails(int kind)
	{
		if (calls[kind]++ != fail_at[kind]) return false;
		fired = true;
		return true;
	}
	void close_all()
	{
		for (auto& f : open) if (PMPI_File_close(&f) == MPI_SUCCESS) handles.files--;
		open.clear();
	}
};
static File_Faults file_faults;
inline int typed(int ret) { if (ret == MPI_SUCCESS) handles.types++; return ret; }
}

extern "C" {
int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r)
{
	vp::maybe_sleep(15);
	const int ret = vp::perturb_sync ? PMPI_Issend(b, n, t, d, tag, c, r) : PMPI_Isend(b, n, t, d, tag, c, r);
	vp::handles.started(*r, true);
	return ret;
}
int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* r)
{
	const int ret = PMPI_Issend(b, n, t, d, tag, c, r);
	vp::handles.started(*r, true);
	return ret;
}
int MPI_Irecv(void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request* r)
{
	vp::maybe_sleep(15);
	const int ret = PMPI_Irecv(b, n, t, s, tag, c, r);
	vp::handles.started(*r, false);
	return ret;
}
int MPI_Wait(MPI_Request* r, MPI_Status* s)
{
	vp::maybe_sleep(15);
	return vp::completing(1, r, [=]() { return PMPI_Wait(r, s); });
}
int MPI_Waitall(int n, MPI_Request r[], MPI_Status s[])
{
	vp::maybe_sleep(40);
	return vp::completing(n, r, [=]() { return PMPI_Waitall(n, r, s); });
}
int MPI_Waitany(int n, MPI_Request r[], int* i, MPI_Status* s) { return vp::completing(n, r, [=]() { return PMPI_Waitany(n, r, i, s); }); }
int MPI_Waitsome(int n, MPI_Request r[], int* m, int* i, MPI_Status* s)
{
	return vp::completing(n, r, [=]() { return PMPI_Waitsome(n, r, m, i, s); });
}
int MPI_Test(MPI_Request* r, int* f, MPI_Status* s) { return vp::completing(1, r, [=]() { return PMPI_Test(r, f, s); }); }
int MPI_Testall(int n, MPI_Request r[], int* f, MPI_Status* s) { return vp::completing(n, r, [=]() { return PMPI_Testall(n, r, f, s); }); }
int MPI_Testany(int n, MPI_Request r[], int* i, int* f, MPI_Status* s)
{
	return vp::completing(n, r, [=]() { return PMPI_Testany(n, r, i, f, s); });
}
int MPI_Testsome(int n, MPI_Request r[], int* m, int* i, MPI_Status* s)
{
	return vp::completing(n, r, [=]() { return PMPI_Testsome(n, r, m, i, s); });
}
int MPI_Type_contiguous(int n, MPI_Datatype a, MPI_Datatype* b) { return vp::typed(PMPI_Type_contiguous(n, a, b)); }
int MPI_Type_vector(int n, int l, int s, MPI_Datatype a, MPI_Datatype* b) { return vp::typed(PMPI_Type_vector(n, l, s, a, b)); }
int MPI_Type_create_hvector(int n, int l, MPI_Aint s, MPI_Datatype a, MPI_Datatype* b) { return vp::typed(PMPI_Type_create_hvector(n, l, s, a, b)); }
int MPI_Type_indexed(int n, const int l[], const int d[], MPI_Datatype a, MPI_Datatype* b) { return vp::typed(PMPI_Type_indexed(n, l, d, a, b)); }
int MPI_Type_create_hindexed(int n, const int l[], const MPI_Aint d[], MPI_Datatype a, MPI_Datatype* b)
{
	return vp::typed(PMPI_Type_create_hindexed(n, l, d, a, b));
}
int MPI_Type_create_struct(int n, const int l[], const MPI_Aint d[], const MPI_Datatype a[], MPI_Datatype* b)
{
	return vp::typed(PMPI_Type_create_struct(n, l, d, a, b));
}
int MPI_Type_create_resized(MPI_Datatype a, MPI_Aint l, MPI_Aint e, MPI_Datatype* b) { return vp::typed(PMPI_Type_create_resized(a, l, e, b)); }
int MPI_Type_dup(MPI_Datatype a, MPI_Datatype* b) { return vp::typed(PMPI_Type_dup(a, b)); }
int MPI_Type_free(MPI_Datatype* a)
{
	const int ret = PMPI_Type_free(a);
	if (ret == MPI_SUCCESS) vp::handles.types--;
	return ret;
}
int MPI_File_open(MPI_Comm c, const char* f, int m, MPI_Info i, MPI_File* h)
{
	if (vp::file_faults.fails(0)) return vp::file_faults.error;
	const int ret = PMPI_File_open(c, f, m, i, h);
	if (ret == MPI_SUCCESS) {
		vp::handles.files++;
		vp::file_faults.open.push_back(*h);
	}
	return ret;
}
int MPI_File_close(MPI_File* h)
{
	auto& open = vp::file_faults.open;
	open.erase(std::remove(open.begin(), open.end(), *h), open.end());
	const int ret = PMPI_File_close(h);
	if (ret == MPI_SUCCESS) vp::handles.files--;
	return vp::file_faults.fails(0) ? vp::file_faults.error : ret;
}
#define VP_FILE(kind, name, parameters, arguments) \
	int MPI_File_##name parameters { return vp::file_faults.fails(kind) ? vp::file_faults.error : PMPI_File_##name arguments; }
VP_FILE(0, set_view, (MPI_File f, MPI_Offset o, MPI_Datatype a, MPI_Datatype b, const char* r, MPI_Info i), (f, o, a, b, r, i))
VP_FILE(0, set_size, (MPI_File f, MPI_Offset o), (f, o))
VP_FILE(0, sync, (MPI_File f), (f))
VP_FILE(0, write_at_all, (MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s), (f, o, b, n, t, s))
VP_FILE(0, read_at_all, (MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s), (f, o, b, n, t, s))
VP_FILE(0, write_all, (MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s), (f, b, n, t, s))
VP_FILE(0, read_all, (MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s), (f, b, n, t, s))
VP_FILE(1, get_size, (MPI_File f, MPI_Offset* o), (f, o))
VP_FILE(1, write_at, (MPI_File f, MPI_Offset o, const void* b, int n, MPI_Datatype t, MPI_Status* s), (f, o, b, n, t, s))
VP_FILE(1, read_at, (MPI_File f, MPI_Offset o, void* b, int n, MPI_Datatype t, MPI_Status* s), (f, o, b, n, t, s))
VP_FILE(1, write, (MPI_File f, const void* b, int n, MPI_Datatype t, MPI_Status* s), (f, b, n, t, s))
VP_FILE(1, read, (MPI_File f, void* b, int n, MPI_Datatype t, MPI_Status* s), (f, b, n, t, s))
#undef VP_FILE
int MPI_Allgather(const void* a, int b, MPI_Datatype c, void* d, int e, MPI_Datatype f, MPI_Comm g)
{
	vp::maybe_sleep(20);
	return PMPI_Allgather(a, b, c, d, e, f, g);
}
int MPI_Allgatherv(const void* a, int b, MPI_Datatype c, void* d, const int* e, const int* x, MPI_Datatype f, MPI_Comm g)
{
	vp::maybe_sleep(20);
	return PMPI_Allgatherv(a, b, c, d, e, x, f, g);
}
int MPI_Allreduce(const void* a, void* b, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c)
{
	vp::maybe_sleep(20);
	return PMPI_Allreduce(a, b, n, t, o, c);
}
int MPI_Barrier(MPI_Comm c) { vp::maybe_sleep(20); return PMPI_Barrier(c); }
}
#endif
