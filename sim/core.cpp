// Simulator core. Library code (compiled from /repo with load/store/edge
// instrumentation and with its allocator, string and atomic calls redirected
// here) runs in real threads of which exactly one is ever runnable.
#include "core.h"
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <unordered_map>
#include <algorithm>
#include <sstream>
#include <atomic>
#include <new>

extern "C" {
void __asan_poison_memory_region(void const volatile*, size_t);
void __asan_unpoison_memory_region(void const volatile*, size_t);
void* __asan_region_is_poisoned(void* beg, size_t size);
int __asan_address_is_poisoned(void const volatile*);
void __asan_handle_no_return(void);
const char* __asan_default_options() {
    return "detect_leaks=0:quarantine_size_mb=0:thread_local_quarantine_size_kb=0:handle_segv=0:handle_sigbus=0:handle_abort=0:"
           "handle_sigill=0:handle_sigfpe=0:use_sigaltstack=0:detect_stack_use_after_return=0:"
           "malloc_context_size=0:allocator_may_return_null=1:check_initialization_order=0:detect_odr_violation=0:"
           "symbolize=0:print_summary=0:exitcode=77:abort_on_error=0:max_free_fill_size=0:max_malloc_fill_size=0:intercept_tls_get_addr=0";
}
}

bool g_verbose = false;
void vnote(const char* fmt, ...) {
    if(!g_verbose) return;
    va_list ap; va_start(ap, fmt); vfprintf(stdout, fmt, ap); va_end(ap);
    fflush(stdout);
}

u64 mix2(u64 a, u64 b) {
    u64 z = a * 0x9E3779B97F4A7C15ull + b + 0x632BE59BD9B4E019ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
u64 Rng::next() {
    s += 0x9E3779B97F4A7C15ull;
    u64 z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}

// ------------------------------------------------------------- plan as text
std::string Plan::text() const {
    std::ostringstream o;
    int nc = NCFG; while(nc > C_INST && !cfg[nc - 1]) nc--;
    o << "simplan 1\nprop " << prop << "\nseed " << seed << "\nrun " << run << "\ncfg";
    for(int i = 0; i < nc; i++) o << ' ' << cfg[i];
    o << "\n# op <task> <code> <a0..a5> <salt> <failmask>; wop: before the tasks compete\n";
    for(auto& p : ops) {
        o << (p.warm ? "wop " : "op ") << p.task << ' ' << p.code;
        for(int i = 0; i < NARG; i++) o << ' ' << p.a[i];
        o << ' ' << p.salt << ' ' << p.fail << '\n';
    }
    o << "# slice <task> <quantum in steps>\n";
    for(auto& s : slices) o << "slice " << s.task << ' ' << s.quantum << '\n';
    o << "end\n";
    return o.str();
}
bool Plan::parse(const std::string& s) {
    std::istringstream in(s);
    std::string line; bool ok = false;
    ops.clear(); slices.clear();
    while(std::getline(in, line)) {
        if(line.empty() || line[0] == '#') continue;
        std::istringstream l(line); std::string k; l >> k;
        if(k == "prop") l >> prop;
        else if(k == "seed") l >> seed;
        else if(k == "run") l >> run;
        else if(k == "cfg") { for(int i = 0; i < NCFG; i++) { cfg[i] = 0; l >> cfg[i]; } }
        else if(k == "op" || k == "wop") { Op p; p.warm = k == "wop"; l >> p.task >> p.code; for(int i = 0; i < NARG; i++) l >> p.a[i]; l >> p.salt >> p.fail; if(!l) return false; ops.push_back(p); }
        else if(k == "slice") { Slice x; l >> x.task >> x.quantum; if(!l) return false; slices.push_back(x); }
        else if(k == "end") ok = true;
    }
    return ok;
}

// --------------------------------------------------------------- run context
enum { T_NEW, T_READY, T_BLOCKED, T_BARRIER, T_DONE };
enum { STK_SIZE = 1 << 19, STK_SLOT = 1 << 20, MAX_TASKS = 8 };
static const uintptr_t STK_BASE = 0x210000000000ull;

struct Task {
    int id = 0;
    pthread_t th;
    uintptr_t stk_lo = 0;
    int state = T_NEW;
    std::atomic<int> go{0};
    sigjmp_buf jb;
    bool jb_set = false;
    OpCtx op;
    u64 steps = 0, digest = 0;
    const Op* cur_op = nullptr; int cur_op_idx = -1;
    Machine* mach = nullptr;
    std::vector<const Op*> ops;
    bool want_excl = false;
    bool tearing = false;
    int hold = 0;       // 0 none 1 shared 2 excl
};

struct RunCtx {
    const Plan* plan = nullptr;
    Outcome* out = nullptr;
    std::vector<Task*> tasks;
    std::vector<Slice> slices; size_t slice_i = 0;
    u64 slice_left = ~0ull;
    bool serial = false, use_lock = false;
    bool aborting = false;
    bool in_finish = false;
    bool isolated = false;
    bool barrier = false;        // tasks wait for each other after their warm operations
    int readers = 0; bool writer = false;
    std::atomic<int> main_go{0};
    bool nofault = false;
};
static RunCtx R;
static Task* volatile cur = nullptr;

bool in_task() { return cur != nullptr; }
int cur_task() { return cur ? cur->id : -1; }
static OpCtx g_dummy_ctx;
OpCtx& opctx() { return cur ? cur->op : g_dummy_ctx; }

static void fwait(std::atomic<int>& w) {
    while(w.load(std::memory_order_acquire) == 0)
        syscall(SYS_futex, (int*) &w, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    w.store(0, std::memory_order_relaxed);
}
static void fwake(std::atomic<int>& w) {
    w.store(1, std::memory_order_release);
    syscall(SYS_futex, (int*) &w, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void log_result(u64 v) { if(cur) cur->digest = mix2(cur->digest, v); }
void log_bytes(const void* p, size_t n) {
    u64 h = 1469598103934665603ull ^ n; const u8* b = (const u8*) p;
    for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    log_result(h);
}
void note_fault(const char* kind, u64 n) { if(R.out) R.out->extra[kind] += n; }

NoFaults::NoFaults() { OpCtx& c = opctx(); m = c.failmask; na = c.nalloc; nf = c.nfailed; q = R.nofault; c.failmask = 0; R.nofault = true; }
NoFaults::~NoFaults() { OpCtx& c = opctx(); c.failmask = m; c.nalloc = na; c.nfailed = nf; R.nofault = q; }

[[noreturn]] void violate(const char* cls, const char* fmt, ...) {
    char buf[600];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    Task* t = cur;
    if(R.out && !R.out->violated) {
        R.out->violated = true;
        R.out->cls = cls;
        char pre[96];
        if(t) {
            if(R.in_finish || t->tearing) snprintf(pre, sizeof pre, "task %d at teardown: ", t->id);
            else if(t->cur_op_idx < 0) snprintf(pre, sizeof pre, "task %d at setup: ", t->id);
            else snprintf(pre, sizeof pre, "task %d op #%d: ", t->id, t->cur_op_idx);
        } else pre[0] = 0;
        R.out->msg = std::string(pre) + buf;
    }
    R.aborting = true;
    if(t && t->jb_set) { __asan_handle_no_return(); siglongjmp(t->jb, 1); }
    fprintf(stderr, "violation outside any task: %s %s\n", cls, buf);
    _exit(3);
}

// ----------------------------------------------------------------- scheduler
static bool runnable(Task* t) {
    if(t->state == T_READY) return true;
    if(t->state == T_BLOCKED) return t->want_excl ? (!R.writer && R.readers == 0) : !R.writer;
    return false;
}
// Chooses who runs next; nullptr when everybody is done.
static Task* pick_next() {
    int n = (int) R.tasks.size(); bool any = false;
    for(Task* t : R.tasks) if(runnable(t)) any = true;
    if(!any && R.barrier) {     // everybody has arrived: let them loose
        R.barrier = false;
        for(Task* t : R.tasks) if(t->state == T_BARRIER) { t->state = T_READY; any = true; }
    }
    if(!any) return nullptr;
    int start; u64 q;
    if(R.barrier || R.serial || R.slice_i >= R.slices.size()) { start = 0; q = ~0ull; }
    else { const Slice& s = R.slices[R.slice_i++]; start = ((s.task % n) + n) % n; q = s.quantum ? s.quantum : 1; }
    for(int k = 0; k < n; k++) {
        Task* t = R.tasks[(start + k) % n];
        if(runnable(t)) { R.slice_left = q; return t; }
    }
    return nullptr;
}
static void park(Task* me) {
    fwait(me->go);
    cur = me;
    if(R.aborting) { __asan_handle_no_return(); siglongjmp(me->jb, 1); }
}
static void hand_to(Task* next) { cur = next; fwake(next->go); }

static void note_switch(Task* from, Task* to, bool mid) {
    Outcome& o = *R.out;
    o.switches++; if(mid) o.preempt_in_op++;
    o.sched = mix2(o.sched, ((u64) (from ? from->id + 1 : 0) << 56) ^ ((u64) (to->id + 1) << 48) ^ (from ? mix2(from->cur_op_idx, from->steps) >> 16 : 0));
}

// The current task gives up the processor; it stays runnable.
static void reschedule(Task* me) {
    Task* nx = pick_next();
    if(nx == nullptr || nx == me) { return; }
    note_switch(me, nx, me->cur_op != nullptr);
    hand_to(nx);
    park(me);
}
static void block_lock(Task* me, bool excl) {
    me->want_excl = excl;
    for(;;) {
        if(excl ? (!R.writer && R.readers == 0) : !R.writer) break;
        me->state = T_BLOCKED;
        Task* nx = pick_next();
        if(!nx) violate("deadlock", "no runnable task while waiting for the caller's lock");
        if(nx != me) { note_switch(me, nx, false); hand_to(nx); park(me); }
    }
    me->state = T_READY;
    if(excl) R.writer = true; else R.readers++;
    me->hold = excl ? 2 : 1;
}
static void unlock(Task* me) {
    if(me->hold == 2) R.writer = false; else if(me->hold == 1) R.readers--;
    me->hold = 0;
}

static void wait_barrier(Task* me) {
    me->state = T_BARRIER;
    Task* nx = pick_next();
    if(nx != me) { note_switch(me, nx, false); hand_to(nx); park(me); }
    me->state = T_READY;
}

static inline void tick(Task* t, const void* addr) {
    t->steps++;
    if((uintptr_t) addr - t->stk_lo < STK_SIZE) return;
    if(--R.slice_left == 0) reschedule(t);
}
void sim_point() { Task* t = cur; if(t) { t->steps++; if(--R.slice_left == 0) reschedule(t); } }

// ------------------------------------------------------------- instrumentation
u8* g_edge_map = nullptr; u32 g_nedges = 0;
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(u32* a, u32* b) {
    if(a == b || *a) return;
    for(u32* p = a; p < b; p++) *p = ++g_nedges;
}
void __sanitizer_cov_trace_pc_guard(u32* g) {
    if(g_edge_map) g_edge_map[*g & 0xffff] = 1;
    Task* t = cur;
    if(t && ++t->op.edges > t->op.edge_budget && t->op.edge_budget)
        violate("hang", "no progress: more than %llu basic blocks in one call", (unsigned long long) t->op.edge_budget);
}
#define ACC(name) void name(void* p) { Task* t = cur; if(t) tick(t, p); }
ACC(__sanitizer_cov_load1) ACC(__sanitizer_cov_load2) ACC(__sanitizer_cov_load4) ACC(__sanitizer_cov_load8) ACC(__sanitizer_cov_load16)
ACC(__sanitizer_cov_store1) ACC(__sanitizer_cov_store2) ACC(__sanitizer_cov_store4) ACC(__sanitizer_cov_store8) ACC(__sanitizer_cov_store16)
}

// ---------------------------------------------------------------------- heap
static const uintptr_t ARENA = 0x200000000000ull;
static const size_t ARENA_SIZE = 192u << 20;
static const size_t BIG_LIMIT = 48u << 20;

struct Block { uintptr_t p; size_t n, cap; bool lib, live; u32 seq; };
static std::unordered_map<uintptr_t, Block> g_blk;
static std::vector<uintptr_t> g_order;               // block starts in address order (bump)
static std::unordered_map<size_t, std::vector<uintptr_t>> g_free;
static uintptr_t g_bump = ARENA, g_hw = ARENA;
static size_t g_live_lib = 0, g_live_lib_bytes = 0;
static u64 g_alloc_seq = 0, g_lib_allocs = 0;

static size_t roundup(size_t n) { return n < 8 ? 8 : (n + 7) & ~(size_t) 7; }
static void raw_fill(void* p, size_t n, u64 v) {
    u8* b = (u8*) p; size_t i = 0;
    for(; i + 8 <= n; i += 8) { *(u64*) (b + i) = v; v = v * 6364136223846793005ull + 1442695040888963407ull; }
    for(; i < n; i++) { b[i] = (u8) v; v >>= 8; }
}
static void raw_copy(void* d, const void* s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) :: "memory"); }
static void raw_copy_bwd(void* d, const void* s, size_t n) {
    if(!n) return;
    u8* dd = (u8*) d + n - 1; const u8* ss = (const u8*) s + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(dd), "+S"(ss), "+c"(n) :: "memory");
}

static void heap_reset() {
    if(g_hw > ARENA) {
        __asan_poison_memory_region((void*) ARENA, g_hw - ARENA);
        if(g_hw - ARENA > (24u << 20)) madvise((void*) ARENA, ARENA_SIZE, MADV_DONTNEED);
    }
    g_blk.clear(); g_order.clear(); g_free.clear();
    g_bump = ARENA; g_live_lib = g_live_lib_bytes = 0; g_alloc_seq = 0; g_lib_allocs = 0;
    // Always keep a poisoned margin ahead of the bump pointer.
    __asan_poison_memory_region((void*) ARENA, 4096);
    g_hw = ARENA + 4096;
}
static void* heap_take(size_t n, bool lib) {
    size_t cap = roundup(n);
    i64 mode = R.plan ? R.plan->cfg[C_HEAP] : 0;
    bool reuse = (mode & HEAP_REUSE) && (!(mode & HEAP_ALTREUSE) || (g_alloc_seq & 1));
    uintptr_t p = 0;
    g_alloc_seq++;
    if(reuse) {
        auto it = g_free.find(cap);
        if(it != g_free.end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); }
    }
    if(!p) {
        size_t rz = 32 + 16 * (mix2(R.plan ? R.plan->cfg[C_SALT] : 0, g_alloc_seq) & 3);
        p = (g_bump + rz + 15) & ~(uintptr_t) 15;
        if(p + cap + 4096 > ARENA + ARENA_SIZE) return nullptr;
        g_bump = p + cap;
        if(g_bump + 4096 > g_hw) {
            uintptr_t to = (g_bump + cap / 2 + 65536) & ~(uintptr_t) 4095;
            if(to > ARENA + ARENA_SIZE) to = ARENA + ARENA_SIZE;
            __asan_poison_memory_region((void*) g_hw, to - g_hw);
            g_hw = to;
        }
        g_order.push_back(p);
    }
    __asan_unpoison_memory_region((void*) p, n);
    Block b; b.p = p; b.n = n; b.cap = cap; b.lib = lib; b.live = true; b.seq = (u32) g_alloc_seq;
    g_blk[p] = b;
    if(mode & HEAP_ZERO) { size_t k = n; void* q = (void*) p; __asm__ volatile("rep stosb" : "+D"(q), "+c"(k) : "a"(0) : "memory"); }
    else raw_fill((void*) p, n, mix2(R.plan ? R.plan->cfg[C_SALT] : 0, g_alloc_seq ^ 0xabcdef));
    if(lib) { g_live_lib++; g_live_lib_bytes += n; g_lib_allocs++; }
    return (void*) p;
}
static void heap_give(Block& b) {
    b.live = false;
    if(b.lib) { g_live_lib--; g_live_lib_bytes -= b.n; }
    raw_fill((void*) b.p, b.n > 4096 ? 4096 : b.n, 0xfeedfacecafebeefull);
    __asan_poison_memory_region((void*) b.p, b.cap);
    if(R.plan && (R.plan->cfg[C_HEAP] & HEAP_REUSE)) g_free[b.cap].push_back(b.p);
}
void* h_alloc(size_t n) { void* p = heap_take(n, false); if(!p) { fprintf(stderr, "harness out of arena\n"); _exit(4); } return p; }
void h_free(void* p) {
    if(!p) return;
    auto it = g_blk.find((uintptr_t) p);
    if(it == g_blk.end() || !it->second.live || it->second.lib) { fprintf(stderr, "harness bad free\n"); _exit(4); }
    heap_give(it->second);
}
void h_seal(void* p, size_t n) { __asan_poison_memory_region(p, n); }
void h_unseal(void* p, size_t n) { __asan_unpoison_memory_region(p, n); }
bool heap_is_lib_block(const void* p, size_t* size) {
    auto it = g_blk.find((uintptr_t) p);
    if(it == g_blk.end() || !it->second.live || !it->second.lib) return false;
    if(size) *size = it->second.n;
    return true;
}
bool heap_in_lib_block(const void* p) {
    uintptr_t a = (uintptr_t) p;
    if(a < ARENA || a >= ARENA + ARENA_SIZE) return false;
    auto it = std::upper_bound(g_order.begin(), g_order.end(), a);
    if(it == g_order.begin()) return false;
    Block& b = g_blk[*(it - 1)];
    return b.live && b.lib && a < b.p + b.n;
}
bool on_task_stack(const void* p) { return cur && (uintptr_t) p - cur->stk_lo < STK_SIZE; }
size_t heap_lib_live() { return g_live_lib; }
size_t heap_lib_live_bytes() { return g_live_lib_bytes; }
u64 heap_lib_allocs() { return g_lib_allocs; }
std::string heap_lib_live_desc() {
    std::string s; int k = 0;
    for(uintptr_t p : g_order) { auto& b = g_blk[p]; if(b.live && b.lib && k++ < 4) { char t[64]; snprintf(t, sizeof t, " [%zu bytes, allocation #%u]", b.n, b.seq); s += t; } }
    return s;
}
static const char* where(uintptr_t a, char* buf, size_t bn) {
    if(a < 65536) { snprintf(buf, bn, "near NULL"); return buf; }
    if(a >= ARENA && a < ARENA + ARENA_SIZE) {
        auto it = std::upper_bound(g_order.begin(), g_order.end(), a);
        if(it != g_order.begin()) {
            auto& b = g_blk[*(it - 1)];
            if(a < b.p + b.cap) {
                if(!b.live) { snprintf(buf, bn, "inside a freed %zu-byte block (offset %zu)", b.n, (size_t) (a - b.p)); return buf; }
                if(a >= b.p + b.n) { snprintf(buf, bn, "past the end of a %zu-byte block", b.n); return buf; }
                snprintf(buf, bn, "in a sealed %zu-byte block (offset %zu)", b.n, (size_t) (a - b.p)); return buf;
            }
            snprintf(buf, bn, "%zu bytes past a %zu-byte block", (size_t) (a - b.p - b.n), b.n); return buf;
        }
        snprintf(buf, bn, "heap"); return buf;
    }
    Task* t = cur;
    if(t && a - t->stk_lo < STK_SIZE) { snprintf(buf, bn, "on the stack"); return buf; }
    snprintf(buf, bn, "in static or foreign memory"); return buf;
}
static const char* badclass(uintptr_t a) {
    if(a >= ARENA && a < ARENA + ARENA_SIZE) {
        auto it = std::upper_bound(g_order.begin(), g_order.end(), a);
        if(it != g_order.begin()) { auto& b = g_blk[*(it - 1)]; if(a < b.p + b.cap && !b.live) return "use-after-free"; }
    }
    return "out-of-bounds";
}
[[noreturn]] static void bad_access(const char* verb, const void* a, size_t n) {
    char w[160];
    violate(badclass((uintptr_t) a), "library %s of %zu byte(s) %s", verb, n, where((uintptr_t) a, w, sizeof w));
}
extern "C" {
#define REP(n) \
    void sim_asan_report_load##n(void* a) { bad_access("read", a, n); } \
    void sim_asan_report_store##n(void* a) { bad_access("write", a, n); } \
    void sim_asan_report_exp_load##n(void* a, u32) { bad_access("read", a, n); } \
    void sim_asan_report_exp_store##n(void* a, u32) { bad_access("write", a, n); }
REP(1) REP(2) REP(4) REP(8) REP(16)
void sim_asan_report_load_n(void* a, size_t n) { bad_access("read", a, n); }
void sim_asan_report_store_n(void* a, size_t n) { bad_access("write", a, n); }
}
static void chk_region(const void* p, size_t n, const char* verb) {
    if(n == 0) return;
    if(n > ((size_t) 1 << 36)) violate("out-of-bounds", "library %s of an absurd %zu bytes", verb, n);
    if((uintptr_t) p < 65536) { char w[80]; violate("segv", "library %s of %zu bytes %s", verb, n, where((uintptr_t) p, w, sizeof w)); }
    void* bad = __asan_region_is_poisoned((void*) p, n);
    if(bad) bad_access(verb, bad, n);
}
void chk_mem(const void* p, size_t n, const char* what) {
    if(n == 0) return;
    char w[160];
    if((uintptr_t) p < 65536) violate("result", "%s: the library returned a null-ish pointer for %zu bytes", what, n);
    if(n > ((size_t) 1 << 32)) violate("result", "%s: the library claims %zu bytes", what, n);
    void* bad = __asan_region_is_poisoned((void*) p, n);
    if(bad) violate(badclass((uintptr_t) bad), "%s: the library returned %zu bytes of which some lie %s", what, n, where((uintptr_t) bad, w, sizeof w));
}
std::string rd(const void* p, size_t n, const char* what) {
    if(n == 0) return std::string();
    chk_mem(p, n, what);
    std::string s(n, 0); raw_copy(&s[0], p, n); return s;
}

// -------------------------------------------------- library allocator seam
static bool should_fail(size_t n) {
    Task* t = cur;
    OpCtx& c = opctx();
    int k = c.nalloc++;
    R.out->nalloc++;
    if(n > BIG_LIMIT) { R.out->nfail_big++; c.nfailed++; return true; }
    (void) t;
    if(k < 32 ? (c.failmask >> k) & 1 : c.failmask == 0xffffffffu) { R.out->nfail_mask++; c.nfailed++; return true; }
    if(!R.nofault && R.plan && R.plan->cfg[C_QUOTA] > 0 && g_live_lib_bytes + n > (size_t) R.plan->cfg[C_QUOTA]) { R.out->nfail_quota++; c.nfailed++; return true; }
    return false;
}
extern "C" {
void* sim_malloc(size_t n) {
    sim_point();
    if(should_fail(n)) { errno = ENOMEM; return nullptr; }
    void* p = heap_take(n, true);
    if(!p) { R.out->nfail_big++; opctx().nfailed++; errno = ENOMEM; }
    return p;
}
void sim_free(void* p) {
    sim_point();
    if(!p) return;
    auto it = g_blk.find((uintptr_t) p);
    char w[160];
    if(it == g_blk.end()) violate("bad-free", "free() of a pointer that malloc never returned (%s)", where((uintptr_t) p, w, sizeof w));
    if(!it->second.live) violate("double-free", "block of %zu bytes freed twice", it->second.n);
    if(!it->second.lib) violate("bad-free", "library frees memory owned by its caller");
    heap_give(it->second);
}
void* sim_realloc(void* p, size_t n) {
    if(!p) return sim_malloc(n);
    sim_point();
    auto it = g_blk.find((uintptr_t) p);
    char w[160];
    if(it == g_blk.end()) violate("bad-free", "realloc() of a pointer that malloc never returned (%s)", where((uintptr_t) p, w, sizeof w));
    if(!it->second.live) violate("use-after-free", "realloc() of a freed block");
    if(!it->second.lib) violate("bad-free", "library reallocs memory owned by its caller");
    if(n == 0) { heap_give(it->second); return nullptr; }   // glibc
    if(should_fail(n)) { errno = ENOMEM; return nullptr; }
    Block& b = it->second;
    if((R.plan->cfg[C_HEAP] & HEAP_INPLACE) && roundup(n) <= b.cap) {
        size_t old = b.n;
        g_live_lib_bytes += n; g_live_lib_bytes -= old;
        __asan_poison_memory_region(p, b.cap); __asan_unpoison_memory_region(p, n);
        if(n > old) raw_fill((u8*) p + old, n - old, 0x7171717171717171ull);
        b.n = n;
        return p;
    }
    void* q = heap_take(n, true);
    if(!q) { R.out->nfail_big++; opctx().nfailed++; errno = ENOMEM; return nullptr; }
    Block& ob = g_blk[(uintptr_t) p];
    raw_copy(q, p, ob.n < n ? ob.n : n);
    heap_give(ob);
    return q;
}
void* sim_calloc(size_t a, size_t b) {
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) { opctx().nalloc++; opctx().nfailed++; R.out->nfail_big++; return nullptr; }
    void* p = sim_malloc(n);
    if(p) { void* q = p; size_t k = n; __asm__ volatile("rep stosb" : "+D"(q), "+c"(k) : "a"(0) : "memory"); }
    return p;
}
void* sim_reallocarray(void* p, size_t a, size_t b) {
    size_t n;
    if(__builtin_mul_overflow(a, b, &n)) { opctx().nalloc++; opctx().nfailed++; R.out->nfail_big++; return nullptr; }
    return sim_realloc(p, n);
}
void* sim_memalign(size_t al, size_t n) { if(al > 16) { violate("internal", "over-aligned allocation is not simulated"); } return sim_malloc(n); }
int sim_posix_memalign(void** out, size_t al, size_t n) { void* p = sim_memalign(al, n); if(!p) return ENOMEM; *out = p; return 0; }
size_t sim_malloc_usable_size(void* p) { size_t n = 0; heap_is_lib_block(p, &n); return n; }

// -------------------------------------------------- library mem/str seam
// Chunked so that another task can run in the middle of a copy.
void* sim_memcpy(void* d, const void* s, size_t n) {
    if(n == 0) return d;
    sim_point();
    chk_region(d, n, "write"); chk_region(s, n, "read");
    if(d != s && (uintptr_t) d < (uintptr_t) s + n && (uintptr_t) s < (uintptr_t) d + n)
        violate("overlap", "memcpy of %zu bytes between overlapping regions", n);
    size_t chunk = n <= 64 ? 8 : (n <= 4096 ? 64 : n / 16), off = 0;
    while(off < n) {
        size_t k = n - off < chunk ? n - off : chunk;
        raw_copy((u8*) d + off, (const u8*) s + off, k); off += k;
        if(off < n && cur) { cur->steps++; if(--R.slice_left == 0) reschedule(cur); }
    }
    return d;
}
void* sim_memmove(void* d, const void* s, size_t n) {
    if(n == 0) return d;
    sim_point();
    chk_region(d, n, "write"); chk_region(s, n, "read");
    if((uintptr_t) d <= (uintptr_t) s || (uintptr_t) d >= (uintptr_t) s + n) raw_copy(d, s, n);
    else raw_copy_bwd(d, s, n);
    sim_point();
    return d;
}
void* sim_memset(void* d, int c, size_t n) {
    if(n == 0) return d;
    sim_point();
    chk_region(d, n, "write");
    void* q = d; size_t k = n;
    __asm__ volatile("rep stosb" : "+D"(q), "+c"(k) : "a"(c) : "memory");
    return d;
}
static inline void cb(const void* p) { if(__asan_address_is_poisoned(p)) bad_access("read", p, 1); }
static inline void cw(const void* p) { if(__asan_address_is_poisoned(p)) bad_access("write", p, 1); }
static inline void nn(const void* p) { if((uintptr_t) p < 65536) violate("segv", "library passes a null pointer to a string function"); }
size_t sim_strlen(const char* s) { sim_point(); nn(s); size_t n = 0; for(;;) { cb(s + n); if(!s[n]) return n; n++; } }
size_t sim_strnlen(const char* s, size_t m) { sim_point(); size_t n = 0; if(m) nn(s); while(n < m) { cb(s + n); if(!s[n]) break; n++; } return n; }
int sim_memcmp(const void* a, const void* b, size_t n) {
    sim_point();
    const u8* x = (const u8*) a; const u8* y = (const u8*) b;
    if(n) { chk_region(a, n, "read"); chk_region(b, n, "read"); }
    for(size_t i = 0; i < n; i++) if(x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
void* sim_asan_memcpy(void* d, const void* s, size_t n) { return sim_memcpy(d, s, n); }
void* sim_asan_memmove(void* d, const void* s, size_t n) { return sim_memmove(d, s, n); }
void* sim_asan_memset(void* d, int c, size_t n) { return sim_memset(d, c, n); }
void* sim_aligned_alloc(size_t al, size_t n) { return sim_memalign(al, n); }
int sim_bcmp(const void* a, const void* b, size_t n) { return sim_memcmp(a, b, n); }
int sim_strncmp(const char* a, const char* b, size_t n) {
    sim_point();
    if(n) { nn(a); nn(b); }
    for(size_t i = 0; i < n; i++) { cb(a + i); cb(b + i); u8 x = a[i], y = b[i]; if(x != y) return x < y ? -1 : 1; if(!x) break; }
    return 0;
}
int sim_strcmp(const char* a, const char* b) { return sim_strncmp(a, b, ~(size_t) 0); }
void* sim_memchr(const void* s, int c, size_t n) { sim_point(); const u8* p = (const u8*) s; for(size_t i = 0; i < n; i++) { cb(p + i); if(p[i] == (u8) c) return (void*) (p + i); } return nullptr; }
char* sim_strchr(const char* s, int c) { sim_point(); nn(s); for(;; s++) { cb(s); if(*s == (char) c) return (char*) s; if(!*s) return nullptr; } }
char* sim_strrchr(const char* s, int c) { sim_point(); nn(s); const char* r = nullptr; for(;; s++) { cb(s); if(*s == (char) c) r = s; if(!*s) return (char*) r; } }
char* sim_strncpy(char* d, const char* s, size_t n) {
    sim_point(); if(n) { nn(d); nn(s); }
    bool z = false;
    for(size_t i = 0; i < n; i++) { char c = 0; if(!z) { cb(s + i); c = s[i]; if(!c) z = true; } cw(d + i); d[i] = c; if((i & 7) == 7) sim_point(); }
    return d;
}
char* sim_strcpy(char* d, const char* s) {
    sim_point(); nn(d); nn(s);
    for(size_t i = 0;; i++) { cb(s + i); cw(d + i); d[i] = s[i]; if(!s[i]) return d; if((i & 7) == 7) sim_point(); }
}
char* sim_strcat(char* d, const char* s) { sim_strcpy(d + sim_strlen(d), s); return d; }
char* sim_strncat(char* d, const char* s, size_t n) { size_t o = sim_strlen(d), i = 0; for(; i < n; i++) { cb(s + i); if(!s[i]) break; cw(d + o + i); d[o + i] = s[i]; } cw(d + o + i); d[o + i] = 0; return d; }
char* sim_strdup(const char* s) { size_t n = sim_strlen(s) + 1; char* p = (char*) sim_malloc(n); if(p) raw_copy(p, s, n); return p; }
char* sim_strndup(const char* s, size_t m) { size_t n = sim_strnlen(s, m); char* p = (char*) sim_malloc(n + 1); if(p) { raw_copy(p, s, n); p[n] = 0; } return p; }
int sim_vsnprintf(char* d, size_t n, const char* f, va_list ap) {
    sim_point();
    std::vector<char> tmp(8192);
    int r = vsnprintf(tmp.data(), tmp.size(), f, ap);
    if(r < 0 || n == 0) return r;
    size_t k = (size_t) r < n - 1 ? (size_t) r : n - 1;
    for(size_t i = 0; i <= k; i++) { cw(d + i); d[i] = i < k ? tmp[i] : 0; if((i & 7) == 7) sim_point(); }
    return r;
}
int sim_snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sim_sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = sim_vsnprintf(d, 1u << 30, f, ap); va_end(ap); return r; }
// Other environment a change might start to use: deterministic stand-ins.
static u64 g_clock = 0, g_rand = 0;
long sim_time(long* t) { g_clock += 1; long v = 1700000000 + (long) (g_clock * 37); if(t) *t = v; return v; }
long sim_clock(void) { return (long) (g_clock += 1000); }
int sim_clock_gettime(int, struct timespec* ts) { g_clock += 1; ts->tv_sec = 1700000000 + g_clock; ts->tv_nsec = 0; return 0; }
int sim_rand(void) { g_rand = mix2(g_rand, 7); return (int) (g_rand & 0x7fffffff); }
long sim_random(void) { return sim_rand(); }
void sim_srand(unsigned s) { g_rand = s; }
int sim_mutex_lock(pthread_mutex_t* m) {
    sim_point();
    int spin = 0;
    while(pthread_mutex_trylock(m) != 0) {
        Task* t = cur;
        if(!t || ++spin > 100000) violate("deadlock", "library mutex is never released");
        u64 keep = R.slice_left; (void) keep; reschedule(t);
        if(cur && R.tasks.size() > 1 && spin > 64) { Task* o = nullptr; for(Task* x : R.tasks) if(x != t && runnable(x)) { o = x; break; } if(o) { note_switch(t, o, true); R.slice_left = 50; hand_to(o); park(t); } }
    }
    return 0;
}
int sim_mutex_unlock(pthread_mutex_t* m) { int r = pthread_mutex_unlock(m); sim_point(); return r; }
}

// ---------------------------------------------------------------- statics
extern "C" { extern u8 __start_libdata[] __attribute__((weak)); extern u8 __stop_libdata[] __attribute__((weak)); }
static std::vector<u8> g_static_image;
static void statics_save() {
    if(!__start_libdata) return;
    g_static_image.resize(__stop_libdata - __start_libdata);
    if(!g_static_image.empty()) raw_copy(g_static_image.data(), __start_libdata, g_static_image.size());
}
static void statics_restore() { if(!g_static_image.empty()) raw_copy(__start_libdata, g_static_image.data(), g_static_image.size()); }

// ------------------------------------------------------------------- signals
static void on_signal(int sig, siginfo_t* si, void*) {
    Task* t = cur;
    if(t && t->jb_set) {
        char w[160];
        if(R.out && !R.out->violated) {
            const char* c = sig == SIGSEGV || sig == SIGBUS ? "segv" : sig == SIGFPE ? "fpe" : "ill";
            R.out->violated = true; R.out->cls = c;
            char at[32]; if(t->cur_op_idx < 0) snprintf(at, sizeof at, R.in_finish || t->tearing ? "at teardown" : "at setup"); else snprintf(at, sizeof at, "op #%d", t->cur_op_idx);
            char b[400]; snprintf(b, sizeof b, "task %d %s: library crashed with signal %d, address %s", t->id, at, sig, where((uintptr_t) si->si_addr, w, sizeof w));
            R.out->msg = b;
        }
        R.aborting = true;
        __asan_handle_no_return();
        siglongjmp(t->jb, 1);
    }
    const char m[] = "simulator: signal outside a task\n";
    (void) !write(2, m, sizeof m - 1);
    _exit(78);
}

void core_init() {
    void* a = mmap((void*) ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(a != (void*) ARENA) { perror("mmap arena"); exit(2); }
    void* s = mmap((void*) STK_BASE, (size_t) STK_SLOT * (MAX_TASKS + 1), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if(s != (void*) STK_BASE) { perror("mmap stacks"); exit(2); }
    for(int i = 0; i < MAX_TASKS; i++)
        if(mprotect((void*) (STK_BASE + (uintptr_t) i * STK_SLOT + (STK_SLOT - STK_SIZE)), STK_SIZE, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(2); }
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; sigemptyset(&sa.sa_mask);
    sigaction(SIGSEGV, &sa, nullptr); sigaction(SIGBUS, &sa, nullptr); sigaction(SIGFPE, &sa, nullptr); sigaction(SIGILL, &sa, nullptr);
    statics_save();
}

// ------------------------------------------------------------------- a task
static void task_finished(Task* t) {
    t->state = T_DONE;
    unlock(t);
    Task* nx = R.aborting ? nullptr : pick_next();
    cur = nullptr;
    if(nx) { note_switch(t, nx, false); hand_to(nx); }
    else { fwake(R.main_go); }
}
static void task_body(Task* t) {
    size_t nwarm = 0; bool atb = R.barrier;
    for(size_t i = 0; i < t->ops.size(); i++) if(t->ops[i]->warm) nwarm = i + 1;
    if(R.isolated) { t->op = OpCtx(); t->mach->start(); }
    for(size_t i = 0; i < t->ops.size(); i++) {
        if(atb && i == nwarm) { wait_barrier(t); atb = false; }
        const Op& op = *t->ops[i];
        bool excl = !t->mach->is_reader(op);
        t->cur_op_idx = t->id == MAX_TASKS - 1 ? -1 : (int) (&op - R.plan->ops.data());
        if(R.use_lock) block_lock(t, excl);
        t->op = OpCtx();
        t->op.failmask = op.fail;
        t->op.edge_budget = t->mach->edge_budget();
        t->cur_op = &op;
        if(g_verbose && t->cur_op_idx >= 0) vnote("  [task %d] op #%d %s%s\n", t->id, t->cur_op_idx, t->mach->describe(op).c_str(), op.fail ? (op.fail == ~0u ? "  (every allocation fails)" : "  (some allocations fail)") : "");
        int r = t->mach->exec(op);
        R.out->ops++;
        if(r == R_FAULTED) R.out->faulted++;
        if(r == R_FAULTED && R.plan->cfg[C_RETRY]) {
            // memory is plentiful again: the very same call has to go through
            t->op = OpCtx(); t->op.edge_budget = t->mach->edge_budget();
            bool keep = R.nofault; R.nofault = true;
            int r2 = t->mach->exec(op);
            R.nofault = keep;
            if(r2 == R_FAULTED) violate("retry", "the same operation fails again although memory is available again");
            note_fault("operation retried after a failed allocation");
        }
        log_result(((u64) t->cur_op_idx << 8) ^ (u64) r);
        if(R.out->states.size() < 400) R.out->states.push_back(t->mach->state_hash());
        t->cur_op = nullptr;
        t->op.failmask = 0;
        if(R.use_lock) unlock(t);
        if(R.tasks.size() > 1) { if(--R.slice_left == 0) reschedule(t); }
    }
    if(atb) wait_barrier(t);
    if(R.isolated) { t->op = OpCtx(); t->op.edge_budget = 400000000ull; t->tearing = true; t->cur_op_idx = -1; t->mach->finish(); }
}
static void* task_main(void* arg) {
    Task* t = (Task*) arg;
    stack_t ss; ss.ss_size = 65536; ss.ss_sp = malloc(ss.ss_size); ss.ss_flags = 0;
    sigaltstack(&ss, nullptr);
    if(sigsetjmp(t->jb, 1) == 0) {
        t->jb_set = true;
        park(t);
        task_body(t);
    }
    t->jb_set = false;
    ss.ss_flags = SS_DISABLE; sigaltstack(&ss, nullptr); free(ss.ss_sp);
    task_finished(t);
    return nullptr;
}
static void run_tasks(std::vector<Task*>& ts, u64 salt) {
    R.tasks = ts;
    R.readers = 0; R.writer = false;
    for(Task* t : ts) {
        t->stk_lo = STK_BASE + (uintptr_t) t->id * STK_SLOT + (STK_SLOT - STK_SIZE);
        __asan_unpoison_memory_region((void*) t->stk_lo, STK_SIZE);
        raw_fill((void*) (t->stk_lo + STK_SIZE - 49152), 49152 - 16, mix2(salt, 77));
        pthread_attr_t at; pthread_attr_init(&at);
        pthread_attr_setstack(&at, (void*) t->stk_lo, STK_SIZE);
        t->state = T_READY;
        if(pthread_create(&t->th, &at, task_main, t)) { perror("pthread_create"); _exit(2); }
        pthread_attr_destroy(&at);
    }
    Task* first = pick_next();
    if(first) { note_switch(nullptr, first, false); hand_to(first); fwait(R.main_go); }
    if(R.aborting) {
        for(Task* t : ts) if(t->state != T_DONE) { fwake(t->go); fwait(R.main_go); }
    }
    for(Task* t : ts) pthread_join(t->th, nullptr);
    cur = nullptr;
}

// Machine start/finish run in a task of their own so that a crash there is a
// violation like any other.
struct FinMachine : Machine {
    std::vector<Machine*> ms; int what;
    void gen_ops(Rng&, Plan&, int, int, int) override {}
    int exec(const Op&) override { for(Machine* m : ms) if(what == 0) m->start(); else m->finish(); return 0; }
    u64 edge_budget() override { return 400000000ull; }
};

Outcome run_once(const Plan& p, bool serial) {
    Outcome o;
    R.plan = &p; R.out = &o; R.slices = p.slices; R.slice_i = 0; R.slice_left = ~0ull; R.serial = serial;
    R.isolated = false; R.barrier = false;
    R.aborting = false; R.in_finish = false; R.nofault = false; R.main_go.store(0);
    g_clock = g_rand = 0;
    heap_reset();
    statics_restore();
    int nt = (int) p.cfg[C_TASKS]; if(nt < 1) nt = 1; if(nt > MAX_TASKS - 1) nt = MAX_TASKS - 1;
    int mode = (int) p.cfg[C_MODE];
    std::vector<Machine*> ms; std::vector<Plan> views(nt);
    if(mode == MODE_ISOLATED) {
        for(int i = 0; i < nt; i++) {
            int mi = (int) ((p.cfg[C_MACH] >> (8 * i)) & 0xff) % g_nmachines;
            for(int k = 0; k < NCFG; k++) views[i].cfg[k] = p.cfg[k];
            for(int k = 0; k < 8; k++) views[i].cfg[C_P0 + k] = p.cfg[(C_INST + 8 * i + k) % NCFG];
            Machine* m = g_machines[mi].make(); m->plan = &views[i]; m->inst = i; ms.push_back(m);
        }
    } else {
        Machine* m = g_machines[(p.cfg[C_MACH] & 0xff) % g_nmachines].make(); m->plan = &p; m->inst = 0; ms.push_back(m);
    }
    std::vector<Task*> all;
    Op finop[2]; FinMachine fm; fm.ms = ms;
    auto mk = [&](int id, Machine* m) { Task* t = new Task; t->id = id; t->mach = m; all.push_back(t); return t; };
    auto phase_fin = [&](int what) {
        fm.what = what;
        Task* t = mk(MAX_TASKS - 1, &fm);
        t->ops.push_back(&finop[0]);
        R.use_lock = false; R.in_finish = what == 1;
        std::vector<Slice> keep; keep.swap(R.slices);
        std::vector<Task*> v{t}; size_t si = R.slice_i;
        u64 st_ops = o.ops; size_t st_states = o.states.size();
        run_tasks(v, p.cfg[C_SALT]);
        o.ops = st_ops; o.states.resize(st_states);
        R.slices.swap(keep); R.slice_i = si; R.in_finish = false; R.slice_left = ~0ull;
        return t;
    };
    if(mode != MODE_ISOLATED) phase_fin(0);
    if(!o.violated) {
        R.use_lock = (mode == MODE_SHARED) && nt > 1;
        if(mode == MODE_READERS) {
            Task* w = mk(0, ms[0]);
            for(auto& q : p.ops) if(q.task == 0) w->ops.push_back(&q);
            std::vector<Task*> v{w};
            std::vector<Slice> keep; keep.swap(R.slices);
            run_tasks(v, p.cfg[C_SALT]);
            R.slices.swap(keep); R.slice_i = 0; R.slice_left = ~0ull;
            if(!o.violated) {
                v.clear();
                for(int i = 1; i <= nt - 1; i++) {
                    Task* t = mk(i, ms[0]);
                    for(auto& q : p.ops) if(q.task == i && ms[0]->is_reader(q)) t->ops.push_back(&q);
                    v.push_back(t);
                }
                if(!v.empty()) run_tasks(v, p.cfg[C_SALT] + 1);
            }
        } else {
            std::vector<Task*> v;
            for(int i = 0; i < nt; i++) {
                Task* t = mk(i, mode == MODE_ISOLATED ? ms[i] : ms[0]);
                for(auto& q : p.ops) if(q.task == i) t->ops.push_back(&q);
                v.push_back(t);
            }
            R.isolated = mode == MODE_ISOLATED;
            for(auto& q : p.ops) if(q.warm && nt > 1 && !serial) R.barrier = true;
            run_tasks(v, p.cfg[C_SALT]);
            R.isolated = false;
        }
    }
    std::vector<Task*> workers = all;
    if(!o.violated) {
        if(mode != MODE_ISOLATED) phase_fin(1);
        if(!o.violated && heap_lib_live() != 0) {
            o.violated = true; o.cls = "leak";
            char b[96]; snprintf(b, sizeof b, "%zu block(s), %zu bytes still allocated after everything was released:", heap_lib_live(), heap_lib_live_bytes());
            o.msg = std::string(b) + heap_lib_live_desc();
        }
    }
    u64 d = 17;
    for(Task* t : workers) { if(t->mach != &fm) o.task_digest.push_back(t->digest); d = mix2(d, t->digest); o.steps += t->steps; }
    d = mix2(d, o.sched); d = mix2(d, o.steps); d = mix2(d, o.ops * 131 + o.faulted);
    d = mix2(d, o.nalloc); d = mix2(d, o.nfail_mask + 7 * o.nfail_quota + 77 * o.nfail_big);
    for(char c : o.cls) d = mix2(d, (u64) c);
    o.digest = d;
    // Machines only hold host-side model memory at this point; after a
    // violation their destructors must not call into the library.
    for(Machine* m : ms) delete m;
    for(Task* t : all) delete t;
    R.out = nullptr; R.plan = nullptr;
    return o;
}
