// Memory held and allocator requests made by one container under long phases of
// growth, shrinkage and churn, measured on the simulated heap.
#include "util.h"
#include "shim.h"
#include "data/value.h"
#include "data/htable.h"
#include "mem/memchunk.h"
#include <algorithm>

namespace {

struct FNode { HTABLE_NODE node; u64 key; };

struct FootMachine : Machine {
    enum { F_GROW, F_SHRINK, F_CHURN, F_CLEAR, F_TRIM, F_REPLACE, F_N };
    enum { T_BUFFER, T_STACK, T_ARRAY, T_VARRAY, T_DICT, T_ODICT, T_STRING, T_PATH, T_HTABLE, T_CHUNK, T_NT };
    static const size_t SLACK = 2048;
    size_t factor() { return kind <= T_VARRAY || kind == T_HTABLE ? 8 : 4; }
    i64 kind; int aty = 0; size_t maxn = 0, unit = 1;
    void* b = nullptr; VALUE v; HTABLE ht; MEMCHUNK* mc = nullptr; size_t bs = 0;
    std::vector<std::string> keys; std::vector<FNode*> nodes; std::vector<size_t> lens;
    size_t n = 0, peak = 0, promise = 0; u64 content = 0; bool bloat = false; u64 serial = 0; size_t base = 0;

    static HTABLE_NODE* nn(FNode* f) { return &f->node; }
    static int hcmp(const HTABLE_NODE* a, const HTABLE_NODE* b) { return HTABLE_DATA(a, FNode, node)->key == HTABLE_DATA(b, FNode, node)->key ? 0 : 1; }
    static u32 hhash(const HTABLE_NODE* a) { return (u32) mix2(HTABLE_DATA(a, FNode, node)->key, 3); }
    static size_t tsz(int t) { static const size_t z[9] = {1, 1, 2, 2, 4, 4, 8, 8, 8}; return z[t]; }
    bool contiguous() { return kind <= T_VARRAY; }

    void gen_cfg(Rng& g, Plan& p) override {
        p.cfg[C_P0] = g.below(T_NT); p.cfg[C_P1] = g.below(9);
        static const i64 mx[] = {40, 40, 200, 200, 700, 700, 700, 3000}; p.cfg[C_P2] = mx[g.below(8)];
        static const i64 bsz[] = {0, 1, 8, 64, 100, 256, 1000, 4096}; p.cfg[C_P3] = bsz[g.below(8)];
        p.cfg[C_P4] = (i64) g.below(4);
    }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[F_N] = {30, 30, 16, 5, 6, 13}; int tot = 0; for(int w : wt) tot += w;
        if(nops > 24) nops = 24;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), c = 0; while(r >= wt[c]) r -= wt[c++];
            if(i == 0) c = F_GROW;
            o.code = c;
            o.a[0] = (i64) g.below(4);                                              // where: end, front, anywhere, mixed
            o.a[1] = g.chance(1, 3) ? (i64) (1 + g.below(8)) : (i64) g.below((u64) p.cfg[C_P2] + 1);   // how many
            if(c == F_SHRINK) o.a[2] = g.chance(1, 2) ? (i64) g.below(6) : (i64) g.below((u64) p.cfg[C_P2] + 1);   // down to
            o.a[3] = (i64) g.below(64);                                             // piece size
            o.a[4] = (i64) g.below(3);
            o.salt = g.next();
            o.fail = g.chance(1, 2) ? 0 : gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    void start() override {
        kind = (i64) idx(plan->cfg[C_P0], T_NT); aty = (int) idx(plan->cfg[C_P1], 9); maxn = std::max<i64>(8, std::min<i64>(plan->cfg[C_P2], 5000));
        static const size_t un[] = {1, 1, 8, 64}; unit = un[plan->cfg[C_P4] & 3];
        base = heap_lib_live_bytes();
        switch(kind) {
            case T_BUFFER: b = h_alloc(shb_sizeof()); shb_init(b); break;
            case T_STACK: b = h_alloc(shb_sizeof()); shs_init(b); break;
            case T_ARRAY: b = h_alloc(shb_sizeof()); sh_arrays[aty].init(b); break;
            case T_HTABLE: sh_htable_init(&ht); break;
            case T_CHUNK: mc = (MEMCHUNK*) h_alloc(sh_memchunk_sizeof()); bs = (size_t) std::max<i64>(0, std::min<i64>(plan->cfg[C_P3], 1 << 20)); memchunk_init(mc, bs); if(!bs) bs = 1024; break;
            default: value_init_null(&v); break;
        }
    }
    // The value kinds need a container of their own first; false when there is no memory for it.
    bool ready() {
        switch(kind) {
            case T_VARRAY: return value_type(&v) == VALUE_ARRAY || value_init_array(&v) == 0;
            case T_DICT: return value_type(&v) == VALUE_DICT || value_init_dict(&v) == 0;
            case T_ODICT: return value_type(&v) == VALUE_DICT || value_init_dict_ex(&v, nullptr, VALUE_DICT_MAINTAINORDER) == 0;
            case T_PATH: return value_type(&v) == VALUE_DICT || value_init_dict(&v) == 0;
            default: return true;
        }
    }
    size_t pos(i64 where, u64 s, size_t lim) { switch(where & 3) { case 0: return lim; case 1: return 0; case 2: return lim ? s % (lim + 1) : 0; default: return (s & 1) ? lim : 0; } }
    std::string newkey(i64 piece) {
        char t[32]; snprintf(t, sizeof t, "%llu", (unsigned long long) (mix2(serial, 5) % 100000 * 100000 + serial)); serial++;
        std::string k(t); k.append((size_t) piece % 40, 'k'); return k;
    }
    // Progress is demanded of every single call, not of a thousand of them together.
    u64 most = 0;       // content at its largest during this operation
    void renew() { OpCtx& c = opctx(); c.edge_budget = c.edges + edge_budget(); }
    // Adds one item; returns 0 when it was refused.
    bool add1(i64 where, i64 piece, u64 s) {
        renew(); bool ok = false;
        switch(kind) {
            case T_BUFFER: { size_t len = (1 + (size_t) piece % 64) * unit; HBuf h(len); memset(h.p, 'x', len); size_t at = unit > 1 ? shb_size(b) : pos(where, s, shb_size(b)); ok = (at == shb_size(b) ? shb_append(b, h.p, len) : shb_insert(b, at, h.p, len)) == 0; if(ok) content += len; break; }
            case T_STACK: ok = shs_push_t(b, aty, s) == 0; if(ok) content += tsz(aty); break;
            case T_ARRAY: { size_t at = pos(where, s, n); ok = (at == n ? sh_arrays[aty].append(b, s) : sh_arrays[aty].insert(b, at, s)) == 0; if(ok) content += tsz(aty); break; }
            case T_VARRAY: { size_t at = pos(where, s, n); VALUE* x = at == n ? value_array_append(&v) : value_array_insert(&v, at); ok = x != nullptr; if(ok) { value_init_int32(x, (int32_t) s); content += sizeof(VALUE); } break; }
            case T_DICT: case T_ODICT: { std::string k = newkey(piece); VALUE* x; { HBuf h(k); x = value_dict_add_(&v, h.c(), h.n); } ok = x != nullptr; if(ok) { value_init_bool(x, 1); keys.push_back(k); content += 64 + k.size(); } break; }
            case T_PATH: {
                std::string k = newkey(piece), p = k + "/x/[]"; VALUE* x = value_build_path(&v, p.c_str()); ok = x != nullptr;
                if(ok) value_init_bool(x, 1);
                { HBuf h(k); if(value_dict_get_(&v, h.c(), h.n)) { keys.push_back(k); content += 256 + k.size(); if(!ok) { n++; return false; } } }
                break;
            }
            case T_STRING: { size_t len = (size_t) (piece * 7 + (i64) (s % 90)); std::string d(len, 's'); value_fini(&v); content = 0; n = 0; HBuf h(d); ok = value_init_string_(&v, h.c(), len) == 0; if(ok) content = len + 16; else value_init_null(&v); break; }
            case T_HTABLE: {
                FNode* f = (FNode*) h_alloc(sizeof(FNode)); f->key = serial++;
                ok = htable_insert(&ht, nn(f), hcmp, hhash) == 0;
                if(ok) { nodes.push_back(f); content += sizeof(void*); } else h_free(f);
                break;
            }
            case T_CHUNK: { size_t len = 1 + (size_t) (piece * piece / 4) % (3 * bs + 40); void* p = memchunk_alloc(mc, len); ok = p != nullptr; if(ok) content += len + 32; break; }
        }
        if(ok) n = kind == T_STRING ? 1 : n + 1;
        most = std::max<u64>(most, content);
        return ok;
    }
    void del1(i64 where, u64 s, i64 piece) {
        if(!n) return;
        renew(); size_t at = pos(where, s, n - 1);
        switch(kind) {
            case T_BUFFER: { size_t sz = shb_size(b), len = std::min<size_t>(sz, std::max<size_t>(1, sz / n)); at = unit > 1 ? sz - len : pos(where, s, sz - len); shb_remove(b, at, len); content = shb_size(b); if(!content) n = 1; break; }
            case T_STACK: shs_pop_t(b, aty); content -= tsz(aty); break;
            case T_ARRAY: sh_arrays[aty].remove(b, at); content -= tsz(aty); break;
            case T_VARRAY: value_array_remove(&v, at); content -= sizeof(VALUE); break;
            case T_DICT: case T_ODICT: case T_PATH: { std::swap(keys[at], keys.back()); std::string k = keys.back(); keys.pop_back(); { HBuf h(k); CHECK(value_dict_remove_(&v, h.c(), h.n) == 0, "content", "removing a present key failed"); } content -= (kind == T_PATH ? 256 : 64) + k.size(); break; }
            case T_STRING: value_fini(&v); value_init_null(&v); content = 0; break;
            case T_HTABLE: { std::swap(nodes[at], nodes.back()); FNode* f = nodes.back(); nodes.pop_back(); CHECK(htable_remove(&ht, nn(f), hcmp, hhash) == nn(f), "content", "removing a present node failed"); h_free(f); content -= sizeof(void*); break; }
            case T_CHUNK: return;
        }
        n--;
        (void) piece;
    }
    void clear(bool fini) {
        switch(kind) {
            case T_BUFFER: if(fini) { shb_fini(b); shb_init(b); } else shb_clear(b); break;
            case T_STACK: if(fini) { shs_fini(b); shs_init(b); } else shs_clear(b); break;
            case T_ARRAY: if(fini || !n) { sh_arrays[aty].fini(b); sh_arrays[aty].init(b); } else sh_arrays[aty].remove_n(b, 0, n); break;
            case T_VARRAY: if(fini) { value_fini(&v); value_init_null(&v); } else if(value_type(&v) == VALUE_ARRAY) { value_array_clean(&v); } break;
            case T_DICT: case T_ODICT: case T_PATH: if(fini) { value_fini(&v); value_init_null(&v); } else if(value_type(&v) == VALUE_DICT) { value_dict_clean(&v); } keys.clear(); break;
            case T_STRING: value_fini(&v); value_init_null(&v); break;
            case T_HTABLE: if(fini) { htable_fini(&ht, nullptr); for(auto f : nodes) h_free(f); nodes.clear(); } else while(n) del1(0, 0, 0); break;
            case T_CHUNK: memchunk_fini(mc); memchunk_init(mc, bs); break;
        }
        n = 0; content = 0; peak = 0; promise = 0;
    }
    void judge(const char* when) {
        u64 held = heap_lib_live_bytes() - base, c = content;
        if(kind == T_STACK) { if(c > peak) peak = c; c = peak; }       // a raw pop leaves the popped bytes in place
        u64 lim = factor() * (c + promise) + SLACK + (kind == T_CHUNK && n ? 2 * bs : 0);
        vnote("   %zu items, %llu bytes of content, %llu bytes held (limit %llu)\n", n, (unsigned long long) c, (unsigned long long) held, (unsigned long long) lim);
        if(!bloat) CHECK(held <= lim, "footprint", "%s: the container holds %llu bytes of memory for %llu bytes of content in %zu item(s) (limit %llu)", when, (unsigned long long) held, (unsigned long long) c, n, (unsigned long long) lim);
        log_result(held);
    }
    void requests(u64 used, u64 lim, const char* when, size_t moved, size_t at) {
        vnote("   %llu allocator requests for %zu items (limit %llu)\n", (unsigned long long) used, moved, (unsigned long long) lim);
        CHECK(used <= lim, "requests", "%s: %llu requests to the allocator for %zu item(s) at %zu items (limit %llu)", when, (unsigned long long) used, moved, at, (unsigned long long) lim);
    }
    static u64 lg(u64 x) { u64 r = 0; while(x > 1) { x >>= 1; r++; } return r; }
    // Requests which n single additions may cost, growing to b items.
    u64 grow_limit(size_t cnt, size_t to) {
        switch(kind) {
            case T_BUFFER: case T_STACK: case T_ARRAY: case T_VARRAY: return 12 + 2 * lg(to * 64 * unit + 2);
            case T_HTABLE: return 16 + 6 * lg(to + 2);
            case T_DICT: case T_ODICT: return 8 + 6 * (u64) cnt;
            case T_PATH: return 16 + 24 * (u64) cnt;
            default: return 8 + 2 * (u64) cnt;
        }
    }
    int exec(const Op& op) override {
        OpCtx& c = opctx(); int nf0 = c.nfailed, na0 = c.nalloc;
        auto failed = [&]() { return c.nfailed > nf0; };
        if(!ready()) { CHECK(failed(), "spurious-fail", "a container could not be created although no allocation failed"); return R_FAULTED; }
        u64 start_edges = c.edges, content0 = content; most = 0; size_t n0 = n, done = 0; u64 lim = 0; const char* what = "";
        size_t cnt = (size_t) op.a[1] % 5001, gone = 0;
        switch(op.code) {
            case F_GROW: {
                what = "after growth";
                if(n0 > 2 * maxn) break;
                for(size_t i = 0; i < cnt; i++) { if(!add1(op.a[0], op.a[3], mix2(op.salt, i))) { CHECK(failed(), "spurious-fail", "an addition failed although no allocation failed"); break; } done++; }
                if(kind != T_STACK) promise = 0; lim = grow_limit(done, n);
                break;
            }
            case F_SHRINK: {
                what = "after removals"; if(kind == T_CHUNK) break;
                size_t keep = (size_t) op.a[2] % 5001;
                if(op.a[4] == 0 && (kind == T_ARRAY || kind == T_VARRAY) && n > keep) {     // in one go
                    size_t at = pos(op.a[0], op.salt, keep), k = n - keep;
                    if(kind == T_ARRAY) { sh_arrays[aty].remove_n(b, at, k); content -= k * tsz(aty); } else { CHECK(value_array_remove_range(&v, at, k) == 0, "content", "removing a range failed"); content -= k * sizeof(VALUE); }
                    n = keep; gone = k; lim = 4;
                } else {
                    while(n > keep && n) { size_t before = n; del1(op.a[0], mix2(op.salt, n), op.a[3]); done++; gone++; if(n >= before) break; }
                    lim = 12 + 2 * lg(n0 * 64 * unit + 2) + (kind == T_PATH ? 2 * done : 0);
                }
                if(kind != T_STACK) promise = 0;
                break;
            }
            case F_CHURN: {
                what = "after churn at a steady size";
                if(n0 < 64 || kind == T_CHUNK || kind == T_STRING || kind == T_BUFFER) { for(size_t i = 0; i < 8; i++) { if(!add1(op.a[0], op.a[3], mix2(op.salt, i))) break; done++; del1(op.a[0], op.salt, op.a[3]); } lim = 1000000; break; }
                size_t k = 1 + (size_t) op.a[3] % (n0 / 8), rounds = 1 + cnt % 24;
                for(size_t r = 0; r < rounds && !failed(); r++) {
                    for(size_t i = 0; i < k; i++) { if(op.a[4] & 1) del1(op.a[0], mix2(op.salt, i), op.a[3]); else if(!add1(op.a[0], op.a[3], mix2(op.salt, i))) break; done++; }
                    for(size_t i = 0; i < k; i++) { if(!(op.a[4] & 1)) del1(op.a[0], mix2(op.salt, i), op.a[3]); else if(!add1(op.a[0], op.a[3], mix2(op.salt, i))) break; }
                }
                gone = done;
                lim = kind == T_DICT || kind == T_ODICT ? 8 + 6 * done : kind == T_PATH ? 16 + 24 * done : 16 + 8 * (u64) done / n0;
                if(kind != T_STACK) promise = 0;
                break;
            }
            case F_CLEAR: what = "after everything was removed"; clear(op.a[4] == 0); gone = n0; lim = 8 + 2 * n0; if(!failed()) bloat = false; break;
            case F_TRIM: {
                what = "after room was reserved and given back"; lim = 8;
                if(kind == T_BUFFER) { shb_reserve(b, cnt * 50); shb_shrink(b); }
                else if(kind == T_STACK) { shs_reserve(b, cnt * 50); if(!failed()) promise = std::max(promise, cnt * 50); }
                break;
            }
            case F_REPLACE: {
                what = "after contents were replaced"; lim = 1000000;
                if(kind == T_VARRAY || kind == T_DICT || kind == T_ODICT) {
                    // one item holds one string after another
                    if(!n) break;
                    VALUE* x; if(kind == T_VARRAY) x = value_array_get(&v, op.salt % n); else { HBuf h(keys[op.salt % n]); x = value_dict_get_(&v, h.c(), h.n); }
                    CHECK(x != nullptr, "content", "an item is not found");
                    std::string d((size_t) op.a[3] * 9, 'r'); HBuf h(d);
                    for(size_t i = 0; i < 1 + cnt % 40; i++) {
                        value_fini(x);
                        if(value_init_string_(x, h.c(), h.n) != 0) { CHECK(failed(), "spurious-fail", "a string could not be created although no allocation failed"); value_init_null(x); break; }
                        u64 keep = content; content += h.n + 16; if(!failed()) judge(what); content = keep;
                    }
                    value_fini(x); value_init_bool(x, 0);
                }
                else if(kind == T_STRING) for(size_t i = 0; i < 1 + cnt % 40; i++) add1(0, (i64) (mix2(op.salt, i) % 64), i);
                break;
            }
        }
        u64 used = (u64) (c.nalloc - na0), edges = c.edges - start_edges;
        if(failed()) bloat = true; else if(gone >= 8 && gone >= n0 / 8) bloat = false;
        judge(what);
        if(!failed()) {
            requests(used, lim, what, done, n);
            // Time: the work (basic blocks of the library) for each item stays within a logarithm.
            u64 elim = 20000 + (u64) (done + gone + 1) * (kind == T_PATH ? 200 : 100) * (lg(n0 + n + 2) + 4);
            // (moving bytes aside, which a loop over the bytes may do: all of them per item anywhere but at the end, amortized there)
            bool seq = kind == T_BUFFER || kind == T_STACK || kind == T_ARRAY || kind == T_VARRAY;
            u64 cmax = std::max<u64>(content0, most) + 64;
            elim += 4 * cmax * ((seq && (op.a[0] & 3) != 0) || kind == T_STRING ? (u64) (done + gone + 1) : 4);
            vnote("   %llu basic blocks (limit %llu)\n", (unsigned long long) edges, (unsigned long long) elim);
            if(op.code != F_TRIM && op.code != F_REPLACE && op.code != F_CLEAR) CHECK(edges <= elim, "work", "%s: %llu basic blocks were executed for %zu item(s) at %zu items (limit %llu)", what, (unsigned long long) edges, done + gone, n, (unsigned long long) elim);
        }
        return failed() ? R_FAULTED : R_OK;
    }
    void finish() override {
        clear(true);
        CHECK(heap_lib_live_bytes() == base, "footprint", "after fini the container still holds %zu bytes", heap_lib_live_bytes() - base);
        if(b) h_free(b); if(mc) h_free(mc);
    }
    u64 state_hash() override { return mix2(mix2(31, (u64) kind), mix2(n, heap_lib_live_bytes() - base)); }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"grow", "shrink", "churn", "clear", "reserve and trim", "replace"}; static const char* at[] = {"end", "front", "anywhere", "mixed"};
        static const char* kn[] = {"buffer", "stack", "array", "value array", "dictionary", "ordered dictionary", "string", "path", "hash table", "chunk allocator"};
        char t[160]; snprintf(t, sizeof t, "%s: %s at %s n=%lld keep=%lld piece=%lld how=%lld", kn[idx(plan->cfg[C_P0], T_NT)], nm[op.code % F_N], at[op.a[0] & 3], (long long) op.a[1], (long long) op.a[2], (long long) op.a[3], (long long) op.a[4]); return t;
    }
};
}
Machine* make_footprint() { return new FootMachine; }
