/*
State shared by all parts of a harness.
*/
#ifndef VP_GLOBALS_HPP
#define VP_GLOBALS_HPP
#include "common.hpp"

namespace vp {
Stats stats;
std::string prop; // property being decided
bool nontrivial_case = false, thorough = false;
}

static std::string scratch, describe;
static int world_rank = 0;

//! history of the case so that generated cases can be looked at
static bool verbose = false;
static void note(const std::string& s)
{
	if (describe.size() < 600) describe += s + " ";
	if (verbose && world_rank == 0) fprintf(stderr, "OP %s\n", s.c_str());
}
#endif
