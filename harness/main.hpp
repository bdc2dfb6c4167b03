/*
Main program of harnesses started with mpiexec, uses functions
void run_case(const Case&) and Case generate(seed, index, number of processes).
*/
#ifndef DCCRG_NO_LB
#include <zoltan.h>
#endif

static void fail(const Options& o, const Case& k, const std::string& what)
{
	std::ofstream f(cat(o.out, "/fail.", world_rank, ".tmp"));
	f << "# process " << world_rank << ": " << what << "\n" << to_text(k);
	f.close();
	rename(cat(o.out, "/fail.", world_rank, ".tmp").c_str(), cat(o.out, "/fail.", world_rank, ".txt").c_str());
	MPI_Abort(MPI_COMM_WORLD, exit_violation);
	_exit(exit_violation);
}

int main(int argc, char** argv)
{
	Options o(argc, argv);
	prop = o.prop;
	scratch = o.out;
	verbose = o.verbose;
	vp::thorough = o.thorough;
	if (!o.verbose) std::cerr.rdbuf(nullptr);
	MPI_Init(&argc, &argv);
	MPI_Comm_rank(MPI_COMM_WORLD, &world_rank);
	int np = 1;
	MPI_Comm_size(MPI_COMM_WORLD, &np);
	#ifndef DCCRG_NO_LB
	float version;
	if (Zoltan_Initialize(argc, argv, &version) != ZOLTAN_OK) return 2;
	#endif
	MPI_Comm control;
	PMPI_Comm_dup(MPI_COMM_WORLD, &control);
	signal(SIGALRM, on_alarm);
	Current cur;
	if (world_rank == 0) cur.open(o.out + "/current.txt");
	const double begin = now();
	u64 n = 0, i = o.start;
	while (true) {
		int go = 1;
		if (!o.replay.empty()) {
			if (n > 0) go = 0;
		} else {
			if (n >= o.count || now() - begin > o.seconds) go = 0;
			PMPI_Bcast(&go, 1, MPI_INT, 0, control);
		}
		if (go == 0) break;
		const Case k = o.replay.empty() ? generate(o.seed, i, np) : from_file(o.replay);
		const std::string text = to_text(k);
		cur.set(text);
		alarm(unsigned(o.case_timeout));
		try {
			run_case(k);
		} catch (const Violation& v) {
			if (o.verbose) fprintf(stderr, "%d %s\n%s\n", world_rank, v.what(), describe.c_str());
			fail(o, k, v.what());
		} catch (const std::exception& v) {
			if (o.verbose) fprintf(stderr, "%d %s\n%s\n", world_rank, v.what(), describe.c_str());
			fail(o, k, cat("exception: ", v.what()));
		}
		alarm(0);
		PMPI_Barrier(control);
		stats.evaluations++;
		if (world_rank == 0) {
			if (nontrivial_case && stats.seen.insert(hash_text(text)).second) stats.nontrivial++;
			if (stats.samples.size() < 2 && nontrivial_case && i % 5 == 0) stats.samples.push_back(cat("case ", i, ": ", describe));
		}
		n++;
		i += o.step;
	}
	if (world_rank == 0 && o.replay.empty()) stats.write(o.out + "/stats.json", now() - begin);
	if (world_rank == 0 && o.verbose) fprintf(stderr, "PASSED %s\n", describe.c_str());
	alarm(60);
	MPI_Finalize();
	return 0;
}
