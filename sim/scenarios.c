#include "sim.h"
#define X(n) extern const Scenario n;
#include "scenarios.def"
#undef X
const Scenario *const all_scenarios[] = {
#define X(n) &n,
#include "scenarios.def"
#undef X
	NULL
};
