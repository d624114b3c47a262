// Counters shared by all processes of one run.
#pragma once
#include "nsym.h"
#include <unistd.h>
struct CaseStat { char name[96]; std::atomic<u64> paths, started, unknown, incomplete, violations, asserts, assumeKills, sampled, endNs; };
struct Shared {
	std::atomic<i64> active; i64 maxActive;
	std::atomic<u64> paths, forks, queries, qSat, qUnsat, qUnknown, cacheHits, solverNs, maxQueryNs, instrs, symBranches;
	std::atomic<u64> engineErrors, modelMismatch, violations, asserts, assertQueries, truncations, unsupported;
	std::atomic<int> stop;
	std::atomic<u32> ncases;
	std::atomic<u64> tags[8192];
	std::atomic<u8> fnSeen[8192];
	CaseStat cases[1024];
};
extern Shared *gShared;
