#pragma once
#include "core.h"
enum Kind { K_PLAIN, K_REL, K_RETRY };
struct PropDef {
    const char* id; Kind kind; int mode;
    const char* machines[16];
    const char* classes;        // ",a,b," or "*,-a,-b,"
    i64 runs[2];                // quick, thorough
    int ops_pct = 100;
    int max_tasks = 1, tasks_pct = 0; bool fine = false;
    bool no_faults = false, more_faults = false, no_quota = false;
    int iso_pct = 0;            // share of runs with independent instances under free interleaving
};
extern const PropDef g_props[];
extern const int g_nprops;
const PropDef* prop_by_id(const char*);
int extra_main(int argc, char** argv);
