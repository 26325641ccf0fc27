// What the check and the interpreter in each build of the library agree on.
#pragma once
#include "pbt.hpp"
struct C31Call { // one script run in one build
	uint64_t (*choose)(void *, uint64_t); void *chooser;
	pbt::WorkerSlot *slot; const char *scratch; int quiet;
	const char *trace, *statuses; uint64_t nontrivial; const char *labels; // results
};
typedef void (*C31Run)(C31Call *);
