// MEMCHUNK, MALLOCA and the command line parser.
#include "util.h"
#include "shim.h"
#include "mem/memchunk.h"
#include "misc/cmdline.h"
#include <algorithm>

namespace {

// ---------------------------------------------------------------- MEMCHUNK
struct ChunkMachine : Machine {
    enum { M_ALLOC, M_BURST, M_HUGE, M_CYCLE, M_VERIFY, M_N };
    enum { NC = 3 };
    struct Piece { char* p; size_t n; u64 salt; };
    struct C { MEMCHUNK* lib; std::vector<Piece> pc; size_t bs; u64 small_total = 0, nbig = 0, nsmall = 0; u64 blocks = 0; };
    C c[NC];
    void gen_cfg(Rng& g, Plan& p) override {
        static const i64 bs[] = {0, 1, 7, 8, 16, 40, 64, 100, 256, 1000, 1024, 4096};
        for(int i = 0; i < NC; i++) p.cfg[C_P0 + i] = bs[g.below(12)];
        p.cfg[C_P3] = g.below(3);
    }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[M_N] = {60, 12, 5, 3, 8};
        int tot = 0; for(int w : wt) tot += w;
        int focus = (int) g.below(NC);
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task;
            int r = (int) g.below(tot); int k = 0; while(r >= wt[k]) r -= wt[k++];
            o.code = k;
            o.a[0] = g.chance(3, 4) ? focus : (int) g.below(NC);
            i64 bs = p.cfg[C_P0 + o.a[0]]; if(bs == 0) bs = 1024;
            switch(p.cfg[C_P3] == 0 ? g.below(4) : g.below(12)) {
                case 0: o.a[1] = g.below(40); break;
                case 1: o.a[1] = g.below(bs / 4 + 2); break;
                case 2: o.a[1] = bs / 4 + g.range(-2, 2); break;
                case 3: o.a[1] = -2 - (i64) g.below(4); break;           // fills what is left, give or take
                case 4: o.a[1] = bs + g.range(-3, 9); break;
                case 5: o.a[1] = g.below(4 * bs + 4); break;
                case 6: o.a[1] = bs / 2 + g.range(-2, 2); break;
                case 7: o.a[1] = 0; break;
                case 8: o.a[1] = near_pow2(g, 3, 12); break;
                default: o.a[1] = 1 + g.below(60); break;
            }
            if(o.a[1] < -6) o.a[1] = 0;
            if(k == M_HUGE) o.a[1] = (i64) huge_size(g);
            if(k == M_BURST) { o.a[1] = 1 + g.below(bs / 4 + 1); o.a[2] = 2 + g.below(30); }
            if(k == M_CYCLE) o.a[1] = (i64) (g.chance(1, 4) ? 12 + g.below(9) : g.below(12));
            o.salt = g.next();
            o.fail = k == M_VERIFY ? 0 : gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == M_VERIFY; }
    void setup(C& x, i64 bs, u64 how) {
        if(how % 3 == 0 && bs == 0) sh_memchunk_static0(x.lib);
        else if(how % 3 == 1) sh_memchunk_static(x.lib, (size_t) bs);
        else memchunk_init(x.lib, (size_t) bs);
        x.bs = bs ? (size_t) bs : 1024; x.pc.clear(); x.small_total = x.nbig = x.nsmall = x.blocks = 0;
    }
    void start() override {
        for(int i = 0; i < NC; i++) { c[i].lib = (MEMCHUNK*) h_alloc(sh_memchunk_sizeof()); memset(c[i].lib, 0xa5, sh_memchunk_sizeof()); setup(c[i], plan->cfg[C_P0 + i], mix2(plan->cfg[C_SALT], i)); }
    }
    void verify(C& x, const char* when, size_t last) {
        size_t from = x.pc.size() > last ? x.pc.size() - last : 0;
        for(size_t i = from; i < x.pc.size(); i++) {
            Piece& q = x.pc[i];
            if(!q.n) continue;
            chk_mem(q.p, q.n, "memory handed out by the chunk allocator");
            CHECK(heap_in_lib_block(q.p) && heap_in_lib_block(q.p + q.n - 1), "out-of-bounds", "%s: a piece lies outside the memory the allocator owns", when);
            std::string e = payload(q.salt, q.n);
            if(memcmp(q.p, e.data(), q.n) != 0) violate("content", "%s: piece %zu of %zu (%zu bytes) was overwritten", when, i, x.pc.size(), q.n);
        }
        // cheap pass over everything else: first and last byte
        for(size_t i = 0; i < from; i++) { Piece& q = x.pc[i]; if(!q.n) continue; std::string e = payload(q.salt, q.n); chk_mem(q.p, q.n, "memory handed out by the chunk allocator"); CHECK(q.p[0] == e[0] && q.p[q.n - 1] == e[q.n - 1], "content", "%s: piece %zu of %zu (%zu bytes) was overwritten", when, i, x.pc.size(), q.n); }
        log_result(x.pc.size());
    }
    int alloc(C& x, size_t n, u64 salt) {
        int nf0 = opctx().nfailed, na0 = opctx().nalloc;
        void* p = memchunk_alloc(x.lib, n);
        bool failed = opctx().nfailed > nf0;
        x.blocks += (opctx().nalloc - na0) - (opctx().nfailed - nf0);
        if(n == 0 && p == nullptr) return R_OK;
        if(!p) { CHECK(failed || x.bs > SIZE_MAX - 64, "spurious-fail", "chunk allocation of %zu bytes failed although no allocation failed", n); return x.bs > (32u << 20) ? R_OK : R_FAULTED; }
        if(n) {
            chk_mem(p, n, "memory handed out by the chunk allocator");
            CHECK(heap_in_lib_block(p) && heap_in_lib_block((char*) p + n - 1), "out-of-bounds", "chunk allocation of %zu bytes lies outside the memory the allocator owns", n);
            for(C& o : c) for(Piece& q : o.pc) if(q.n && (char*) p < q.p + q.n && q.p < (char*) p + n) violate("content", "chunk allocation of %zu bytes overlaps a piece of %zu bytes handed out before", n, q.n);
            std::string d = payload(salt, n); memcpy(p, d.data(), n);
            x.pc.push_back({(char*) p, n, salt});
        }
        if(n * 4 > x.bs) x.nbig++; else { x.nsmall++; x.small_total += (n + 15) & ~(size_t) 15; }
        if(x.bs >= 256) CHECK(x.blocks <= x.nbig + 3 + 3 * x.small_total / x.bs, "capacity", "%llu blocks were taken from the system for %llu small requests (%llu bytes) and %llu big ones with block size %zu", (unsigned long long) x.blocks, (unsigned long long) x.nsmall, (unsigned long long) x.small_total, (unsigned long long) x.nbig, x.bs);
        return R_OK;
    }
    int exec(const Op& op) override {
        C& x = c[idx(op.a[0], NC)];
        switch(op.code) {
            case M_ALLOC: {
                size_t n;
                if(op.a[1] < 0) { size_t used = 0; for(auto& q : x.pc) used += q.n; size_t left = x.bs - used % x.bs; i64 d = op.a[1] + 4; n = (i64) left + d > 0 ? left + d : 0; }
                else n = (size_t) op.a[1] % (1u << 20);
                int r = alloc(x, n, op.salt);
                verify(x, "after an allocation", 12);
                return r;
            }
            case M_BURST: {
                int r = R_OK; size_t n = (size_t) op.a[1] % 8192; if(n > x.bs / 4) n = x.bs / 4 ? x.bs / 4 : 1;
                for(i64 i = 0; i < op.a[2] % 64; i++) if(alloc(x, 1 + mix2(op.salt, i) % (n ? n : 1), mix2(op.salt, i + 1000)) == R_FAULTED) { r = R_FAULTED; if(op.salt & 1) break; }
                verify(x, "after a burst of allocations", 40);
                return r;
            }
            case M_HUGE: {
                size_t n = (size_t) op.a[1]; if(n < (64u << 20)) n = ~(size_t) 0 - n;
                void* p = memchunk_alloc(x.lib, n);
                CHECK(p == nullptr, "oversize", "a request for %zu bytes was reported as successful", n);
                note_fault("oversized request");
                verify(x, "after a refused oversized request", 12);
                return R_OK;
            }
            case M_CYCLE: {
                static const i64 bs[] = {0, 1, 7, 8, 16, 40, 64, 100, 256, 1000, 1024, 4096, -1, -2, -7, -8, -9, INT64_MAX, 1ll << 62, 1ll << 32, 3ll << 30};
                verify(x, "before fini", 1u << 20);
                memchunk_fini(x.lib);
                if(plan->cfg[C_MODE] != MODE_ISOLATED) for(auto& q : x.pc) CHECK(!heap_in_lib_block(q.p), "leak", "a piece is still allocated after the allocator was finished");
                memset(x.lib, 0x3c, sh_memchunk_sizeof());
                setup(x, bs[idx(op.a[1], 21)], op.salt);
                return R_OK;
            }
            default: verify(x, "on reading", 1u << 20); return R_OK;
        }
    }
    void finish() override { for(auto& x : c) { verify(x, "at the end", 1u << 20); memchunk_fini(x.lib); h_free(x.lib); } }
    u64 state_hash() override { u64 h = 3; for(auto& x : c) { h = mix2(h, x.bs); h = mix2(h, x.blocks * 1000 + x.pc.size()); } return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"alloc", "burst of small allocs", "oversized alloc", "fini+init", "verify"};
        char t[120]; snprintf(t, sizeof t, "memchunk[%zu] %s n=%llu count=%lld", idx(op.a[0], NC), nm[op.code % M_N], (unsigned long long) op.a[1], (long long) op.a[2]); return t;
    }
};

// ----------------------------------------------------------------- MALLOCA
struct MallocaMachine : Machine {
    enum { X_RUN, X_N };
    struct St { MallocaMachine* m; size_t sz[16]; void* p[16]; bool live[16]; bool heap[16]; u64 salt; size_t live0; bool failed; int na, nf; };
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        size_t T = shm_default_threshold();
        (void) T;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; o.code = X_RUN;
            o.a[0] = (i64) g.below(shm_nkinds());
            o.a[1] = 1 + (i64) g.below(g.chance(1, 3) ? 12 : 4);
            o.a[2] = (i64) g.below(4);      // size profile
            o.a[3] = (i64) g.below(4);      // threshold profile
            o.salt = g.next(); o.fail = gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    static void fill(St* s, int i) { if(s->p[i] && s->sz[i]) { std::string d = payload(mix2(s->salt, i), s->sz[i]); chk_mem(s->p[i], s->sz[i], "memory returned by MALLOCA"); memcpy(s->p[i], d.data(), d.size()); } }
    static void check(St* s, int i, const char* when) {
        if(!s->p[i] || !s->sz[i]) return;
        std::string d = payload(mix2(s->salt, i), s->sz[i]);
        chk_mem(s->p[i], s->sz[i], "memory returned by MALLOCA");
        CHECK(memcmp(s->p[i], d.data(), d.size()) == 0, "content", "%s: MALLOCA block %d of %zu bytes was overwritten", when, i, s->sz[i]);
    }
    static void got(void* ctx, int i, size_t size, size_t thr, void* p) {
        St* s = (St*) ctx;
        int na = opctx().nalloc - s->na, nf = opctx().nfailed - s->nf; s->na = opctx().nalloc; s->nf = opctx().nfailed;
        s->p[i] = nullptr; s->live[i] = false; s->heap[i] = false; s->sz[i] = size;
        if(size > (48u << 20)) { CHECK(p == nullptr, "oversize", "MALLOCA of %zu bytes was reported as successful", size); note_fault("oversized request"); return; }
        if(!p) { CHECK(nf > 0, "spurious-fail", "MALLOCA of %zu bytes (threshold %zu) failed although no allocation failed", size, thr); s->failed = true; return; }
        bool heap = heap_in_lib_block((char*) p + (size ? 0 : -1));
        if(size >= thr) CHECK(heap, "result", "MALLOCA of %zu bytes with threshold %zu was not taken from the heap", size, thr);
        if(size + 64 < thr) CHECK(!heap && na == 0, "result", "MALLOCA of %zu bytes with threshold %zu was not taken from the stack", size, thr);
        if(!heap) CHECK(on_task_stack(p), "result", "MALLOCA of %zu bytes is neither on the stack nor in the heap", size);
        s->p[i] = p; s->live[i] = true; s->heap[i] = heap;
        if(size) {
            chk_mem(p, size, "memory returned by MALLOCA");
            for(int k = 0; k < 16; k++) if(k != i && s->live[k] && s->sz[k] && (char*) p < (char*) s->p[k] + s->sz[k] && (char*) s->p[k] < (char*) p + size) violate("content", "MALLOCA of %zu bytes overlaps a live block of %zu bytes", size, s->sz[k]);
        }
        fill(s, i);
        log_result(heap * 2 + size * 4);
    }
    static void freeing(void* ctx, int i, void* p) {
        St* s = (St*) ctx;
        for(int k = 0; k < 16; k++) if(s->live[k]) check(s, k, "before FREEA");
        s->live0 = heap_lib_live();
    }
    static void freed(void* ctx, int i) {
        St* s = (St*) ctx;
        if(s->p[i] == nullptr) CHECK(heap_lib_live() == s->live0, "result", "FREEA(NULL) released something");
        else if(cur_heap_shared()) {}
        else if(s->heap[i]) CHECK(heap_lib_live() == s->live0 - 1, "leak", "FREEA of a heap block of %zu bytes did not release it", s->sz[i]);
        else CHECK(heap_lib_live() == s->live0, "bad-free", "FREEA of a stack block released heap memory");
        s->live[i] = false;
        for(int k = 0; k < 16; k++) if(s->live[k]) check(s, k, "after FREEA of another block");
        s->na = opctx().nalloc; s->nf = opctx().nfailed;
    }
    static bool shared_heap;
    static bool cur_heap_shared() { return shared_heap; }
    int exec(const Op& op) override {
        shared_heap = plan->cfg[C_TASKS] > 1;
        int n = 1 + (int) idx(op.a[1] - 1, 12); size_t T = shm_default_threshold();
        int kind = (int) idx(op.a[0], shm_nkinds());
        HBuf sz(sizeof(size_t) * n), th(sizeof(size_t) * n), od(sizeof(int) * n);
        size_t* sizes = (size_t*) sz.p; size_t* thr = (size_t*) th.p; int* order = (int*) od.p;
        for(int i = 0; i < n; i++) {
            Rng g(mix2(op.salt, i));
            switch(op.a[3] & 3) { case 0: thr[i] = T; break; case 1: thr[i] = 8 + g.below(64); break; case 2: thr[i] = g.below(12); break; default: thr[i] = near_pow2(g, 4, 13); }
            size_t base = kind == 1 || (kind == 5 && (i & 1)) ? thr[i] : T;
            switch(op.a[2] & 3) {
                case 0: sizes[i] = base + g.range(-20, 12); if((i64) sizes[i] < 0) sizes[i] = 0; break;
                case 1: sizes[i] = g.below(80); break;
                case 2: sizes[i] = g.below(2 * base + 4); break;
                default: sizes[i] = g.chance(1, 3) ? huge_size(g) : g.chance(1, 3) ? ~(size_t) 0 - g.below(24) : g.below(3000); if(sizes[i] > (1u << 20) && sizes[i] < (64u << 20)) sizes[i] += (64u << 20); break;
            }
            order[i] = i;
        }
        Rng g(mix2(op.salt, 999)); for(int i = n - 1; i > 0; i--) std::swap(order[i], order[g.below(i + 1)]);
        HBuf stb(sizeof(St)); St* s = (St*) stb.p; memset(s, 0, sizeof *s); s->m = this; s->salt = op.salt;
        HBuf cbb(sizeof(SHM_CB)); SHM_CB* cb = (SHM_CB*) cbb.p; cb->ctx = s; cb->got = got; cb->freeing = freeing; cb->freed = freed;
        size_t live0 = heap_lib_live();
        shm_scenario(kind, sizes, thr, n, order, cb);
        if(!shared_heap) CHECK(heap_lib_live() == live0, "leak", "%zu heap block(s) left behind after every FREEA", heap_lib_live() - live0);
        last = mix2(last, n * 8 + kind);
        return s->failed ? R_FAULTED : R_OK;
    }
    u64 last = 0;
    u64 state_hash() override { return last; }
    std::string describe(const Op& op) override { char t[120]; snprintf(t, sizeof t, "MALLOCA scenario %lld: %lld block(s), size profile %lld, threshold profile %lld", (long long) idx(op.a[0], shm_nkinds()), (long long) (1 + idx(op.a[1] - 1, 12)), (long long) (op.a[2] & 3), (long long) (op.a[3] & 3)); return t; }
};
bool MallocaMachine::shared_heap = false;

// ----------------------------------------------------------------- CMDLINE
struct CmdMachine : Machine {
    enum { D_PARSE, D_ABORT, D_NESTED, D_N };
    struct RO { char sh; bool haslong; std::string lng; int id; unsigned fl; };
    struct Ev { int id; bool has; std::string arg; int how; };    // how: 0 exact text, 1 text may be cut short after 31 characters
    struct Run {
        CmdMachine* m; std::vector<Ev> got; std::vector<Ev> exp; int abort_at = -1; int abort_val = 0; int nest_at = -1; u64 nest_salt = 0; int depth = 0;
        std::vector<std::string> args; std::vector<HBuf*> argb; void* cookie;
        const Op* op;
    };
    void gen_ops(Rng& g, Plan& p, int task, int nops, int) override {
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; o.code = g.chance(1, 4) ? D_ABORT : g.chance(1, 5) ? D_NESTED : D_PARSE;
            o.a[0] = 1 + (i64) g.below(7);       // options
            o.a[1] = (i64) g.below(g.chance(1, 4) ? 14 : 6); // tokens
            o.a[2] = (i64) g.below(5);           // flavour of the option table; from five on also with long names, words and vectors
            if(g.chance(1, 30)) { o.a[2] += 5; o.a[0] = 1 + (i64) g.below(g.chance(1, 3) ? 40 : 7); o.a[1] = (i64) g.below(g.chance(1, 3) ? 300 : 6); }
            o.a[3] = (i64) g.below(10);          // event at which to abort or to parse recursively
            o.a[4] = (i64) (g.chance(1, 3) ? g.range(-5, 5) : (i64) (int) g.next());
            o.salt = g.next();
            p.ops.push_back(o);
        }
    }
    static std::string name(Rng& g, bool tiny) {
        static const char* w[] = {"a", "ab", "abc", "abcd", "foo", "foobar", "fo", "help", "output", "I", "D", "isystem", "l", "x", "very-long-option-name-which-goes-on", "exactly-thirty-characters-ab", "thirty-one-characters-in-total1", "gr\xc3\xb6\xc3\x9f" "e", "caf\xe9", "\xff", "\xfe-x"};
        return w[g.below(tiny ? 9 : sizeof w / sizeof *w)];
    }
    // Lengths around sizes a fixed buffer or a narrow counter might have.
    static std::string stretch(Rng& g, std::string s) {
        static const int around[] = {31, 32, 63, 64, 100, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 2048, 4095, 4096};
        if(!g.chance(1, 2)) return s;
        size_t n = g.chance(1, 3) ? 1 + g.below(1500) : (size_t) (around[g.below(sizeof around / sizeof *around)] + g.range(-3, 3));
        while(s.size() < n) s += (char) ('a' + s.size() % 23);
        return s;
    }
    static std::vector<RO> table(i64 n, i64 flav, u64 salt) {
        std::vector<RO> t;
        for(i64 i = 0; i < n; i++) {
            Rng g(mix2(salt, 5000 + i)); RO r; r.id = 10 + (int) i; r.fl = 0; r.haslong = false; r.sh = 0;
            static const char sh[] = "abcxyIDlo1?=\xe9\xff\x80";
            i64 flavour = flav % 5;
            bool comp = (flavour == 1 && g.chance(1, 2)) || (flavour == 2 && g.chance(1, 3)) || (flavour == 4 && g.chance(1, 4));
            if(comp) {
                r.fl = CMDLINE_OPTFLAG_COMPILERLIKE | (g.chance(1, 3) ? CMDLINE_OPTFLAG_REQUIREDARG : 0); r.haslong = true;
                r.lng = name(g, false);
                u64 k = g.below(flavour == 1 ? 3 : 4); if(k == 0) r.lng = "--" + r.lng; else if(k < 3) r.lng = "-" + r.lng;
                if(g.chance(1, 3)) r.sh = sh[g.below(15)];                // documented as ignored
            } else {
                u64 k = g.below(flavour == 3 ? 8 : 4);
                if(k != 0) r.sh = sh[g.below(15)];
                if(k == 0 || k == 1 || r.sh == 0) { r.haslong = true; r.lng = name(g, g.chance(1, 2)); }
                switch(g.below(4)) { case 0: r.fl = CMDLINE_OPTFLAG_REQUIREDARG; break; case 1: r.fl = CMDLINE_OPTFLAG_OPTIONALARG; break; default: break; }
            }
            if(flav >= 5 && r.haslong) r.lng = stretch(g, r.lng);
            if(g.chance(1, 12)) r.id = -(int) (1 + g.below(50));
            t.push_back(r);
        }
        return t;
    }
    static std::string token(const std::vector<RO>& t, i64 flav, u64 salt) {
        Rng g(salt); bool wide = flav >= 5;
        static const char sh[] = "abcxyIDlo1?=-q\xe9\xff\xb1";
        const RO* r = t.empty() ? nullptr : &t[g.below(t.size())];
        switch(g.below(16)) {
            case 0: return "-"; 
            case 1: return g.chance(1, 2) ? "--" : "-";
            case 2: return "";
            case 3: { std::string s = g.chance(1, 2) ? "file.txt" : "Ifoo"; return wide ? stretch(g, s) : s; }
            case 4: case 5: { std::string s = "-"; int n = 1 + (int) g.below(wide && g.chance(1, 3) ? 300 : 5); for(int i = 0; i < n; i++) { const RO* q = t.empty() ? nullptr : &t[g.below(t.size())]; s += q && q->sh && g.chance(3, 4) ? q->sh : sh[g.below(17)]; } return s; }
            case 6: { std::string s = name(g, false); if(wide) s = stretch(g, s); return "--" + s + (g.chance(1, 2) ? "=v" : ""); }
            case 7: { std::string s = "--"; int n = (int) g.range(27, wide ? 1200 : 40); bool hi = g.chance(1, 4); for(int i = 0; i < n; i++) s += (char) ((hi ? 0xd0 : 'a') + i % 26); if(g.chance(2, 3)) s += "=val"; return s; }
            case 8: return std::string("-") + sh[g.below(17)];
            default: break;
        }
        if(!r) return "plain";
        if(wide && g.chance(1, 3)) {      // a value of any length, or a name which goes wrong near its end
            if(!r->haslong) return std::string("-") + r->sh + stretch(g, "v");
            bool comp = (r->fl & CMDLINE_OPTFLAG_COMPILERLIKE) != 0; std::string s = (comp ? "" : "--") + r->lng;
            switch(g.below(4)) { case 0: return s + (comp ? "" : "=") + stretch(g, "v"); case 1: s.back() = (char) (s.back() == 'q' ? 'r' : 'q'); return s; case 2: s.pop_back(); return s; default: s[s.size() - 1 - g.below(std::min<size_t>(s.size(), 40))] ^= 1; return s; }
        }
        if(r->haslong && (r->fl & CMDLINE_OPTFLAG_COMPILERLIKE)) {
            switch(g.below(4)) { case 0: return r->lng; case 1: return r->lng + "arg"; case 2: return r->lng + "="; default: return r->lng.substr(0, g.below(r->lng.size() + 1)); }
        }
        if(r->haslong && g.chance(2, 3)) {
            switch(g.below(6)) { case 0: return "--" + r->lng; case 1: return "--" + r->lng + "=val"; case 2: return "--" + r->lng + "="; case 3: return "--" + r->lng + "x"; case 4: return "--" + r->lng.substr(0, g.below(r->lng.size() + 1)); default: return "--" + r->lng + "=a=b"; }
        }
        if(r->sh) switch(g.below(4)) { case 0: return std::string("-") + r->sh; case 1: return std::string("-") + r->sh + "val"; case 2: return std::string("-") + r->sh + "=v"; default: return std::string("-") + r->sh; }
        return "plain";
    }
    static bool starts(const std::string& s, const std::string& p) { return s.compare(0, p.size(), p) == 0; }
    // What the header promises, written as a straightforward parser.
    static std::vector<Ev> reference(const std::vector<RO>& t, const std::vector<std::string>& a) {
        std::vector<Ev> e; bool dd = false, prefixy = false;
        for(auto& o : t) if((o.fl & CMDLINE_OPTFLAG_COMPILERLIKE) && o.lng[0] != '-') prefixy = true;
        auto ev = [&](int id, const std::string& s, int how = 0) { e.push_back({id, true, s, how}); };
        auto noarg = [&](int id) { e.push_back({id, false, "", 0}); };
        for(size_t i = 1; i < a.size(); i++) {
            const std::string& s = a[i];
            bool dash = !s.empty() && s[0] == '-';
            if(dd || s == "-") { ev(CMDLINE_OPTID_NONE, s); continue; }
            if(s == "--") { dd = true; continue; }
            if(!dash && !prefixy) { ev(CMDLINE_OPTID_NONE, s); continue; }
            bool done = false;
            for(auto& o : t) {
                if(o.fl & CMDLINE_OPTFLAG_COMPILERLIKE) {
                    if(!starts(s, o.lng)) continue;
                    if(s.size() > o.lng.size()) ev(o.id, s.substr(o.lng.size()));
                    else if(i + 1 < a.size()) ev(o.id, a[++i]);
                    else ev(CMDLINE_OPTID_MISSINGARG, o.lng);
                    done = true; break;
                }
                if(o.haslong && starts(s, "--")) {
                    std::string full = "--" + o.lng;
                    if(s == full) { if(o.fl & CMDLINE_OPTFLAG_REQUIREDARG) ev(CMDLINE_OPTID_MISSINGARG, full); else noarg(o.id); done = true; break; }
                    if(starts(s, full + "=")) { if(o.fl & (CMDLINE_OPTFLAG_REQUIREDARG | CMDLINE_OPTFLAG_OPTIONALARG)) ev(o.id, s.substr(full.size() + 1)); else ev(CMDLINE_OPTID_BOGUSARG, full, 1); done = true; break; }
                    continue;
                }
                if(o.sh && dash && s.size() >= 2 && s[1] == o.sh) {
                    if(o.fl & CMDLINE_OPTFLAG_REQUIREDARG) {
                        if(s.size() > 2) ev(o.id, s.substr(2));
                        else if(i + 1 < a.size()) ev(o.id, a[++i]);
                        else ev(CMDLINE_OPTID_MISSINGARG, s);
                    } else {
                        noarg(o.id);
                        for(size_t k = 2; k < s.size(); k++) {
                            const RO* f = nullptr;
                            for(auto& q : t) if(!(q.fl & CMDLINE_OPTFLAG_COMPILERLIKE) && q.sh == s[k]) { f = &q; break; }
                            std::string bad = std::string("-") + s[k];
                            if(!f) ev(CMDLINE_OPTID_UNKNOWN, bad);
                            else if(f->fl & CMDLINE_OPTFLAG_REQUIREDARG) ev(CMDLINE_OPTID_MISSINGARG, bad);
                            else noarg(f->id);
                        }
                    }
                    done = true; break;
                }
            }
            if(done) continue;
            if(!dash) ev(CMDLINE_OPTID_NONE, s);
            else if(starts(s, "--")) { size_t q = s.find('='); ev(CMDLINE_OPTID_UNKNOWN, s.substr(0, q), q == std::string::npos ? 0 : 1); }
            else ev(CMDLINE_OPTID_UNKNOWN, s);
        }
        return e;
    }
    static int callback(int id, const char* arg, void* ud) {
        sim_point();
        Run* r = *(Run**) ud;
        CHECK(ud == r->cookie, "result", "callback got a different userdata pointer");
        Ev e; e.id = id; e.has = arg != nullptr; e.how = 0;
        if(arg) {
            size_t n = 0;
            for(;; n++) { chk_mem(arg + n, 1, "argument passed to the callback"); if(!arg[n]) break; }
            e.arg.assign(arg, n);
            bool inargv = false;
            for(HBuf* b : r->argb) if(arg >= b->c() && arg <= b->c() + b->n) inargv = true;
            if(id != CMDLINE_OPTID_UNKNOWN && id != CMDLINE_OPTID_MISSINGARG && id != CMDLINE_OPTID_BOGUSARG)
                CHECK(inargv, "result", "argument \"%s\" of option %d does not point into the command line", e.arg.c_str(), id);
        }
        size_t k = r->got.size();
        CHECK(k < r->exp.size(), "result", "unexpected extra event #%zu: id %d arg %s", k, id, arg ? e.arg.c_str() : "(none)");
        const Ev& x = r->exp[k];
        bool same = x.id == id && x.has == e.has && (x.arg == e.arg || (x.how == 1 && e.arg.size() >= 31 && starts(x.arg, e.arg)));
        CHECK(same, "result", "event #%zu is id %d arg %s, expected id %d arg %s", k, id, e.has ? e.arg.c_str() : "(none)", x.id, x.has ? x.arg.c_str() : "(none)");
        r->got.push_back(e);
        log_result((u64) (u32) id); log_bytes(e.arg.data(), e.arg.size());
        if((int) k == r->nest_at && r->depth < 2) {
            note_fault("re-entrant parse from the callback");
            std::string before = e.arg;
            Op o = *r->op; o.salt = r->nest_salt; o.code = D_PARSE;
            r->m->parse(o, r->depth + 1);
            if(arg) { for(size_t i = 0; i <= before.size(); i++) { chk_mem(arg + i, 1, "argument passed to the callback"); CHECK(arg[i] == (i < before.size() ? before[i] : 0), "result", "a nested parse changed the argument of the event being handled"); } }
        }
        if((int) k == r->abort_at) { note_fault("callback abort"); return r->abort_val; }
        return 0;
    }
    void parse(const Op& op, int depth) {
        i64 flav = idx(op.a[2], 10), n = idx(op.a[0], flav >= 5 ? 64 : 16), nt = idx(op.a[1], flav >= 5 ? 400 : 40);
        std::vector<RO> t = table(n, flav, op.salt);
        Run r; r.m = this; r.op = &op; r.depth = depth;
        r.args.push_back("prog");
        for(i64 i = 0; i < nt; i++) r.args.push_back(token(t, flav, mix2(op.salt, 9000 + i)));
        r.exp = reference(t, r.args);
        if(op.code == D_ABORT && !r.exp.empty()) { r.abort_at = (int) idx(op.a[3], r.exp.size()); r.abort_val = (int) op.a[4] ? (int) op.a[4] : -1; }
        if(op.code == D_NESTED && !r.exp.empty()) { r.nest_at = (int) idx(op.a[3], r.exp.size()); r.nest_salt = mix2(op.salt, 4); }
        // option table and tokens live in exactly sized blocks
        std::vector<HBuf*> names; HBuf ob(sizeof(CMDLINE_OPTION) * (t.size() + 1)); memset(ob.p, 0x5a, ob.n);
        CMDLINE_OPTION* o = (CMDLINE_OPTION*) ob.p;
        for(size_t i = 0; i < t.size(); i++) {
            o[i].shortname = t[i].sh; o[i].longname = nullptr; o[i].id = t[i].id; o[i].flags = t[i].fl;
            if(t[i].haslong) { names.push_back(new HBuf(t[i].lng + std::string(1, 0))); o[i].longname = names.back()->c(); }
        }
        o[t.size()].shortname = 0; o[t.size()].longname = nullptr; o[t.size()].id = 0; o[t.size()].flags = 0;
        std::string optimg = ob.str();
        bool tail = (op.salt >> 20) & 1;          // more tokens follow argv[argc]
        std::vector<std::string> all = r.args; if(tail) { all.push_back("--tail=1"); all.push_back("-a"); }
        for(auto& s : all) r.argb.push_back(new HBuf(s + std::string(1, 0)));
        HBuf av(sizeof(char*) * (all.size() + 1)); char** argv = (char**) av.p;
        for(size_t i = 0; i < all.size(); i++) argv[i] = r.argb[i]->c();
        argv[all.size()] = nullptr;
        std::string avimg = av.str();
        if((op.salt >> 21) & 1) h_seal(argv[0], r.argb[0]->n);     // argv[0] is ignored
        HBuf ud(sizeof(Run*)); *(Run**) ud.p = &r; r.cookie = ud.p;
        int ret = cmdline_read(o, (int) r.args.size(), argv, callback, ud.p);
        h_unseal(argv[0], r.argb[0]->n);
        if(r.abort_at >= 0) {
            CHECK((int) r.got.size() == r.abort_at + 1, "result", "%zu events were reported, expected parsing to stop after event #%d", r.got.size(), r.abort_at);
            CHECK(ret == r.abort_val, "result", "parser returned %d although the callback aborted with %d", ret, r.abort_val);
        } else {
            CHECK(r.got.size() == r.exp.size(), "result", "%zu events were reported, expected %zu (next: id %d arg %s)", r.got.size(), r.exp.size(), r.exp[r.got.size()].id, r.exp[r.got.size()].arg.c_str());
            CHECK(ret == 0, "result", "parser returned %d on success", ret);
        }
        CHECK(ob.str() == optimg && av.str() == avimg, "content", "parser changed the option table or the argument vector");
        for(size_t i = 0; i < all.size(); i++) CHECK(r.argb[i]->str() == all[i] + std::string(1, 0), "content", "parser changed command line token #%zu", i);
        log_result((u64) ret);
        last = mix2(last, r.got.size());
        for(HBuf* b : names) delete b;
        for(HBuf* b : r.argb) delete b;
    }
    int exec(const Op& op) override { parse(op, 0); return R_OK; }
    u64 last = 0;
    u64 state_hash() override { return last; }
    std::string describe(const Op& op) override {
        i64 flav = idx(op.a[2], 10), n = idx(op.a[0], flav >= 5 ? 64 : 16), nt = idx(op.a[1], flav >= 5 ? 400 : 40);
        std::vector<RO> t = table(n, flav, op.salt);
        std::string s = "cmdline options{";
        for(auto& o : t) { char b[120]; snprintf(b, sizeof b, " [%c %s id=%d flags=%x]", o.sh ? o.sh : '0', o.haslong ? o.lng.c_str() : "-", o.id, o.fl); s += b; }
        s += " } argv:"; for(i64 i = 0; i < nt; i++) s += " '" + token(t, flav, mix2(op.salt, 9000 + i)) + "'";
        if(op.code == D_ABORT) s += "  (callback aborts)"; if(op.code == D_NESTED) s += "  (callback parses recursively)";
        return s;
    }
};
}
Machine* make_memchunk() { return new ChunkMachine; }
Machine* make_malloca() { return new MallocaMachine; }
Machine* make_cmdline() { return new CmdMachine; }
