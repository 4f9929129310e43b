// Deterministic simulator core: plans, scheduler, simulated heap, faults.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <functional>

typedef uint64_t u64;
typedef uint32_t u32;
typedef int64_t i64;
typedef uint8_t u8;

// ---------------------------------------------------------------- randomness
u64 mix2(u64 a, u64 b);
struct Rng {
    u64 s;
    explicit Rng(u64 seed) : s(seed) {}
    u64 next();
    u64 below(u64 n) { return n ? next() % n : 0; }
    i64 range(i64 lo, i64 hi) { return lo + (i64) below((u64)(hi - lo + 1)); }
    bool chance(u32 num, u32 den) { return below(den) < num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// --------------------------------------------------------------------- plans
enum { NARG = 6, NCFG = 48 };
struct Op {
    int task = 0;
    int code = 0;
    i64 a[NARG] = {0,0,0,0,0,0};
    u64 salt = 0;
    u32 fail = 0;          // bit k: k-th allocation request of this op fails
    bool warm = false;     // preparation: done before the tasks start to compete
};
struct Slice { int task; u32 quantum; };

// cfg slots used by the core; machines use C_P0..
enum { C_TASKS = 0, C_HEAP, C_QUOTA, C_SALT, C_MODE, C_MACH, C_P0, C_P1, C_P2, C_P3, C_P4, C_P5, C_P6, C_P7, C_RETRY };
// In MODE_ISOLATED instance i keeps its C_P0..C_P7 in cfg[C_INST + 8 * i ...].
enum { C_INST = 16 };
enum { MODE_SHARED = 0, MODE_ISOLATED = 1, MODE_READERS = 2, MODE_FREE = 3 };
// C_HEAP bits
enum { HEAP_REUSE = 1, HEAP_INPLACE = 2, HEAP_ZERO = 4, HEAP_ALTREUSE = 8 };

struct Plan {
    std::string prop;
    u64 seed = 0;
    i64 run = 0;
    i64 cfg[NCFG] = {0};
    std::vector<Op> ops;
    std::vector<Slice> slices;
    std::string text() const;
    bool parse(const std::string& s);
};

// -------------------------------------------------------------------- tasks
struct Task;
struct Violation { };     // thrown never; see violate()

// Raised (longjmp to the task top) on the first violation of a run.
[[noreturn]] void violate(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define CHECK(cond, cls, ...) do { if(!(cond)) violate(cls, __VA_ARGS__); } while(0)

struct OpCtx {            // per-task, per-op context
    u32 failmask = 0;
    int nalloc = 0;       // allocation requests made by library code in this op
    int nfailed = 0;      // ... of which failed, for whatever reason
    u64 edges = 0;        // basic blocks executed in this op
    u64 edge_budget = 0;
    u64 callbacks = 0;
};
OpCtx& opctx();
int cur_task();
bool in_task();
void sim_point();         // explicit preemption point (callbacks, atomics)
void log_result(u64 v);   // folds an observation into the task's digest
void log_bytes(const void* p, size_t n);

// Sets faults aside for a scope (oracle code which itself calls the library).
struct NoFaults {
    u32 m; int na, nf; bool q;
    NoFaults(); ~NoFaults();
};
extern bool g_verbose;
void vnote(const char* fmt, ...) __attribute__((format(printf, 1, 2)));

// ---------------------------------------------------------------------- heap
void* h_alloc(size_t n);             // harness-owned, redzoned, never fails
void  h_free(void* p);
void  h_seal(void* p, size_t n);     // not accessible to anyone
void  h_unseal(void* p, size_t n);
bool  heap_is_lib_block(const void* p, size_t* size);   // exact start of a live library block
bool heap_in_lib_block(const void* p);                     // inside a live library block
bool on_task_stack(const void* p);
size_t heap_lib_live();
size_t heap_lib_live_bytes();
std::string heap_lib_live_desc();
u64 heap_lib_allocs();               // successful allocations so far in the run
// Checks that [p, p+n) may be read (live heap, not poisoned); violates otherwise.
void chk_mem(const void* p, size_t n, const char* what);
std::string rd(const void* p, size_t n, const char* what);

// ------------------------------------------------------------------ machines
enum { R_OK = 0, R_FAULTED = 1 };
struct Machine {
    const Plan* plan = nullptr;
    int inst = 0;
    virtual ~Machine() {}
    virtual void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) = 0;  // appends ops
    virtual void gen_cfg(Rng& g, Plan& p) {}
    virtual bool is_reader(const Op& op) { return false; }
    virtual void start() {}
    virtual int exec(const Op& op) = 0;
    virtual void finish() {}             // tear down everything (then leak check)
    virtual u64 state_hash() { return 0; }
    virtual std::string describe(const Op& op) { return ""; }
    virtual u64 edge_budget() { return 30000000ull; }
};
typedef Machine* (*MachineFactory)();
struct MachineInfo { const char* name; MachineFactory make; bool isolates; bool has_readers; };
extern const MachineInfo g_machines[];
extern const int g_nmachines;
int machine_by_name(const char* n);

// ------------------------------------------------------------------ outcome
struct Outcome {
    bool violated = false;
    std::string cls, msg;
    u64 digest = 0;
    u64 sched = 0;
    u64 steps = 0;
    u64 switches = 0;
    u64 ops = 0, faulted = 0;
    u64 nfail_mask = 0, nfail_quota = 0, nfail_big = 0, nalloc = 0;
    u64 preempt_in_op = 0;       // switches in the middle of library code
    std::vector<u64> states;
    std::vector<u64> task_digest;
    std::map<std::string, u64> extra;   // machine specific fault counters
};
void note_fault(const char* kind, u64 n = 1);
Outcome run_once(const Plan& p, bool serial);
// Data the search driver shares with the core.
extern u8* g_edge_map; extern u32 g_nedges;
void core_init();
