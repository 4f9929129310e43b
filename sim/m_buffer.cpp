// BUFFER, STACK and typed arrays against plain byte-string models.
#include "util.h"
#include "shim.h"

extern "C" void sim_free(void*);

namespace {

struct BufMachine : Machine {
    enum { B_APPEND, B_INSERT, B_APPEND_RAW, B_INSERT_RAW, B_REMOVE, B_CLEAR, B_RESERVE, B_REALLOC, B_SHRINK, B_ACQUIRE, B_SWAP, B_CYCLE, B_READ, B_HUGE, B_CHAIN, B_N };
    static const int NB = 3;
    struct B { void* lib = nullptr; std::string m; u64 promise = 0; };
    B b[NB];

    void gen_cfg(Rng& g, Plan& p) override {
        p.cfg[C_P0] = g.below(4);      // size profile
    }
    size_t gsize(Rng& g, i64 prof) {
        switch(g.below(10)) {
            case 0: return g.below(3);
            case 1: case 2: return near_pow2(g, 3, prof == 0 ? 6 : 11);
            case 3: return prof >= 2 ? g.below(6000) : g.below(300);
            case 4: return prof == 3 && g.chance(1, 4) ? g.below(200000) : g.below(600);
            default: return g.below(prof == 0 ? 20 : 90);
        }
    }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        i64 prof = p.cfg[C_P0];
        static const int wt[B_N] = {14, 14, 5, 5, 12, 2, 8, 7, 5, 2, 3, 2, 8, 3, 3};
        int tot = 0; for(int w : wt) tot += w;
        int focus = (int) g.below(NB);
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task;
            int r = (int) g.below(tot); int c = 0; while(r >= wt[c]) r -= wt[c++];
            o.code = c;
            o.a[0] = g.chance(3, 4) ? focus : (int) g.below(NB);
            switch(g.below(4)) { case 0: o.a[1] = 0; break; case 1: o.a[1] = -1; break; default: o.a[1] = (i64) (g.next() >> 1); }
            o.a[2] = (i64) gsize(g, prof);
            if(c == B_HUGE) o.a[2] = (i64) huge_size(g);
            if(c == B_REMOVE) { if(g.chance(1, 6)) o.a[2] = (i64) (g.chance(1, 2) ? huge_size(g) : 100000 + g.below(1000)); else if(g.chance(1, 3)) o.a[2] = -2; }
            if(c == B_REALLOC && g.chance(1, 3)) o.a[2] = 0 - (i64) g.below(40) - 1;   // relative to size
            o.a[3] = g.below(6);
            o.salt = g.next();
            o.fail = c == B_READ ? 0 : gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == B_READ; }
    void start() override {
        for(int i = 0; i < NB; i++) { b[i].lib = h_alloc(shb_sizeof()); if(i & 1) shb_init_static(b[i].lib); else shb_init(b[i].lib); }
    }
    void verify(B& x, const char* when) {
        size_t sz = shb_size(x.lib);
        CHECK(sz == x.m.size(), "content", "%s: buffer size is %zu, expected %zu", when, sz, x.m.size());
        CHECK((shb_is_empty(x.lib) != 0) == x.m.empty(), "content", "%s: emptiness is misreported for size %zu", when, sz);
        if(sz) {
            const void* d = shb_cdata(x.lib);
            CHECK(d == shb_data(x.lib), "content", "%s: const and mutable data pointers differ", when);
            chk_mem(d, sz, "buffer contents");
            if(memcmp(d, x.m.data(), sz) != 0) {
                size_t k = 0; while(((const char*) d)[k] == x.m[k]) k++;
                violate("content", "%s: byte %zu of %zu differs from the sequence that was stored", when, k, sz);
            }
            size_t off = sz / 2;
            CHECK(shb_cdata_at(x.lib, off) == (const char*) d + off && shb_data_at(x.lib, off) == (char*) d + off, "content", "%s: data_at is off", when);
            log_bytes(d, sz);
        }
        log_result(sz);
    }
    int insert(B& x, size_t off, size_t n, u64 salt, bool raw, bool append) {
        std::string data = payload(salt, n);
        bool fits = x.m.size() + n <= x.promise;
        int nf0 = opctx().nfailed;
        bool ok; void* ptr = nullptr;
        HBuf src(data);
        if(raw) { ptr = append ? shb_append_raw(x.lib, n) : shb_insert_raw(x.lib, off, n); ok = ptr != nullptr; if(n == 0) ok = true; }
        else ok = (append ? shb_append(x.lib, src.p, n) : shb_insert(x.lib, off, src.p, n)) == 0;
        bool failed = opctx().nfailed > nf0;
        if(!ok) {
            CHECK(failed, "spurious-fail", "%s of %zu bytes at %zu into %zu bytes failed although no allocation failed", append ? "append" : "insert", n, off, x.m.size());
            CHECK(!fits, "capacity", "%s of %zu bytes failed although capacity %llu had been secured beforehand (size %zu)", append ? "append" : "insert", n, (unsigned long long) x.promise, x.m.size());
            verify(x, "after failed insertion");
            return R_FAULTED;
        }
        if(raw && n) {
            chk_mem(ptr, n, "space returned by raw insertion");
            CHECK(ptr == (char*) shb_data(x.lib) + off, "content", "raw insertion returned a pointer which is not at offset %zu", off);
            memcpy(ptr, data.data(), n);
        }
        x.m.insert(off, data);
        verify(x, "after insertion");
        return R_OK;
    }
    int exec(const Op& op) override {
        B& x = b[idx(op.a[0], NB)];
        size_t sz = x.m.size();
        size_t off = op.a[1] == -1 ? sz : idx(op.a[1], sz + 1);
        size_t n = (size_t) op.a[2];
        int nf0 = opctx().nfailed;
        auto failed = [&]() { return opctx().nfailed > nf0; };
        switch(op.code) {
            case B_APPEND: case B_INSERT: case B_APPEND_RAW: case B_INSERT_RAW: {
                bool app = op.code == B_APPEND || op.code == B_APPEND_RAW;
                return insert(x, app ? sz : off, n, op.salt, op.code == B_APPEND_RAW || op.code == B_INSERT_RAW, app);
            }
            case B_REMOVE: {
                size_t cnt = op.a[2] == -2 ? sz - off : n;
                shb_remove(x.lib, off, cnt);
                x.m.erase(off, cnt < sz - off ? cnt : sz - off);
                x.promise = 0;
                verify(x, "after remove");
                return R_OK;
            }
            case B_CLEAR: shb_clear(x.lib); x.m.clear(); x.promise = 0; verify(x, "after clear"); return R_OK;
            case B_RESERVE: {
                int r = shb_reserve(x.lib, n);
                if(r != 0) CHECK(failed(), "spurious-fail", "reserve(%zu) failed although no allocation failed", n);
                else if(sz + n > x.promise) x.promise = sz + n;
                verify(x, "after reserve");
                return r == 0 ? R_OK : R_FAULTED;
            }
            case B_REALLOC: {
                size_t al = op.a[2] < 0 ? (sz > (size_t) -op.a[2] ? sz + (size_t) op.a[2] : sz) : n;
                int r = shb_realloc(x.lib, al);
                if(r != 0) CHECK(failed(), "spurious-fail", "realloc(%zu) failed although no allocation failed", al);
                else { if(al < sz) x.m.resize(al); x.promise = al; }
                verify(x, "after realloc");
                return r == 0 ? R_OK : R_FAULTED;
            }
            case B_SHRINK: shb_shrink(x.lib); x.promise = 0; verify(x, "after shrink"); return R_OK;
            case B_ACQUIRE: {
                size_t got = 12345;
                void* d = shb_acquire(x.lib, (op.salt & 7) == 0 ? nullptr : &got);
                if((op.salt & 7) != 0) CHECK(got == sz, "content", "acquire reports %zu bytes, expected %zu", got, sz);
                if(sz) { std::string s = rd(d, sz, "acquired block"); CHECK(s == x.m, "content", "acquired block does not hold the buffer's bytes"); }
                x.m.clear(); x.promise = 0;
                verify(x, "after acquire");
                sim_free(d);
                return R_OK;
            }
            case B_SWAP: {
                B& y = b[idx(op.a[0] + 1 + (i64) idx(op.a[1], NB - 1), NB)];
                shb_swap(x.lib, y.lib); std::swap(x.m, y.m); std::swap(x.promise, y.promise);
                verify(x, "after swap"); verify(y, "after swap");
                return R_OK;
            }
            case B_CYCLE:
                shb_fini(x.lib);
                memset(x.lib, 0xa5, shb_sizeof());
                if(op.salt & 1) shb_init(x.lib); else shb_init_static(x.lib);
                x.m.clear(); x.promise = 0; verify(x, "after fini and init");
                return R_OK;
            case B_HUGE: {
                // Far more than the simulated machine has: must be refused cleanly.
                if(n < (64u << 20)) n = ~(size_t) 0 - n;
                bool ok;
                switch(op.a[3] % 4) {
                    case 0: ok = shb_reserve(x.lib, n) == 0; break;
                    case 1: ok = shb_insert_raw(x.lib, off, n) != nullptr; break;
                    case 2: ok = shb_append_raw(x.lib, n) != nullptr; break;
                    default: ok = shb_realloc(x.lib, n) == 0; break;
                }
                CHECK(!ok, "oversize", "a request for %zu more bytes was reported as successful", n);
                verify(x, "after a refused oversized request");
                note_fault("oversized request");
                return R_OK;
            }
            case B_CHAIN: {
                // reserve, then fill the reserved space while no memory is left
                size_t want = n % 3000;
                if(shb_reserve(x.lib, want) != 0) {
                    CHECK(failed(), "spurious-fail", "reserve(%zu) failed although no allocation failed", want);
                    verify(x, "after failed reserve");
                    return R_FAULTED;
                }
                x.promise = sz + want;
                u32 keep = opctx().failmask; opctx().failmask = 0xffffffffu;
                size_t left = want; u64 s = op.salt; int guard = 0;
                while(left > 0 && guard++ < 6) {
                    s = mix2(s, left);
                    size_t k = guard == 6 ? left : 1 + s % left;
                    insert(x, (s & 64) ? x.m.size() : idx((i64) (s >> 7), x.m.size() + 1), k, s, (s & 128) != 0, false);
                    left -= k;
                }
                opctx().failmask = keep;
                note_fault("outage after reserve");
                return R_OK;
            }
            default: verify(x, "on reading"); return R_OK;
        }
    }
    void finish() override { for(auto& x : b) { verify(x, "at the end"); shb_fini(x.lib); h_free(x.lib); x.lib = nullptr; } }
    u64 state_hash() override { u64 h = 1; for(auto& x : b) h = mix2(h, x.m.size() * 31 + x.promise); return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"append", "insert", "append_raw", "insert_raw", "remove", "clear", "reserve", "realloc", "shrink", "acquire", "swap", "fini+init", "read", "oversized request", "reserve then fill during outage"};
        char t[160]; snprintf(t, sizeof t, "buffer[%zu] %s off=%lld n=%llu", idx(op.a[0], NB), nm[op.code % B_N], (long long) op.a[1], (unsigned long long) op.a[2]); return t;
    }
};

// ---------------------------------------------------------- STACK and arrays
struct ArrMachine : Machine {
    enum { S_PUSH_T, S_POP_T, S_PEEK_T, S_PUSH, S_POP, S_PEEK, S_PUSH_RAW, S_POP_RAW, S_CLEAR, S_ACQUIRE, S_SWAP, S_RESERVE, S_BURST,
           A_APPEND, A_INSERT, A_APPEND_RAW, A_INSERT_RAW, A_INSERT_N, A_APPEND_N, A_SET, A_GET, A_REMOVE, A_REMOVE_N, A_ACQUIRE, A_HUGE, A_READ, A_CYCLE, N_OPS };
    void* st[2]; std::string sm[2]; u64 sprom[2];
    void* ar[9]; std::vector<u64> am[9];
    static size_t tsz(int t) { static const size_t z[9] = {1, 1, 2, 2, 4, 4, 8, 8, 8}; return z[t]; }
    // What reading back value v through type t has to give (sign extended for signed types).
    static u64 norm(int t, u64 v) {
        switch(t) { case 0: return (u64) (i64) (int8_t) v; case 1: return (u8) v; case 2: return (u64) (i64) (int16_t) v; case 3: return (uint16_t) v;
                    case 4: return (u64) (i64) (int32_t) v; case 5: return (u32) v; default: return v; }
    }
    static std::string bytes_of(int t, u64 v) { return std::string((const char*) &v, tsz(t)); }
    static u64 val_of(int t, const std::string& s, size_t off) { u64 v = 0; memcpy(&v, s.data() + off, tsz(t)); return norm(t, v); }
    void gen_cfg(Rng& g, Plan& p) override { p.cfg[C_P0] = g.below(9); p.cfg[C_P1] = g.below(3); }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[N_OPS] = {10, 9, 5, 6, 6, 3, 2, 3, 1, 1, 1, 2, 3, 14, 14, 3, 3, 4, 4, 5, 4, 8, 6, 1, 2, 6, 1};
        int tot = 0; for(int w : wt) tot += w;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task;
            int r = (int) g.below(tot); int c = 0; while(r >= wt[c]) r -= wt[c++];
            if(p.cfg[C_P1] == 1 && c <= S_BURST && g.chance(2, 3)) c = A_APPEND + (int) g.below(2);
            if(p.cfg[C_P1] == 2 && c > S_BURST && g.chance(2, 3)) c = (int) g.below(6);
            o.code = c;
            o.a[0] = c <= S_BURST ? (i64) g.below(2) : (g.chance(3, 4) ? p.cfg[C_P0] : (i64) g.below(9));
            switch(g.below(4)) { case 0: o.a[1] = 0; break; case 1: o.a[1] = -1; break; default: o.a[1] = (i64) (g.next() >> 1); }
            o.a[2] = (i64) (c == A_HUGE ? huge_size(g) : g.chance(1, 8) ? near_pow2(g, 3, 10) : g.below(24));
            o.a[3] = (i64) g.below(9);
            o.salt = g.next();
            o.fail = c == A_READ ? 0 : gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == A_READ || op.code == A_GET || op.code == S_PEEK_T || op.code == S_PEEK; }
    void start() override {
        for(int i = 0; i < 2; i++) { st[i] = h_alloc(shb_sizeof()); if(i) shs_init_static(st[i]); else shs_init(st[i]); sprom[i] = 0; }
        for(int t = 0; t < 9; t++) { ar[t] = h_alloc(shb_sizeof()); if(t & 1) sh_arrays[t].init_static(ar[t]); else sh_arrays[t].init(ar[t]); }
    }
    void vstack(int k, const char* when) {
        size_t n = shs_size(st[k]);
        CHECK(n == sm[k].size(), "content", "%s: stack holds %zu bytes, expected %zu", when, n, sm[k].size());
        CHECK((shs_is_empty(st[k]) != 0) == (n == 0), "content", "%s: stack emptiness is misreported", when);
        if(n) { const void* d = shs_cdata(st[k]); CHECK(d == shs_data(st[k]), "content", "stack data pointers differ"); chk_mem(d, n, "stack contents"); CHECK(memcmp(d, sm[k].data(), n) == 0, "content", "%s: stack contents differ from what was pushed", when); log_bytes(d, n); }
        log_result(n);
    }
    void varr(int t, const char* when) {
        const SHA& A = sh_arrays[t]; auto& m = am[t];
        size_t n = A.size(ar[t]);
        CHECK(n == m.size(), "content", "%s: array type %d has %zu items, expected %zu", when, t, n, m.size());
        CHECK((A.is_empty(ar[t]) != 0) == m.empty(), "content", "%s: array emptiness is misreported", when);
        if(n) {
            const void* d = A.cdata(ar[t]); CHECK(d == A.data(ar[t]), "content", "array data pointers differ");
            chk_mem(d, n * tsz(t), "array contents");
            std::string raw((const char*) d, n * tsz(t));
            for(size_t i = 0; i < n; i++) CHECK(val_of(t, raw, i * tsz(t)) == m[i], "content", "%s: item %zu of %zu in array type %d differs", when, i, n, t);
            log_bytes(raw.data(), raw.size());
        }
        log_result(n);
    }
    // Writes model values into raw slots the library opened.
    void fill(int t, size_t i, size_t n, u64 salt) {
        char* d = (char*) sh_arrays[t].data(ar[t]);
        chk_mem(d + i * tsz(t), n * tsz(t), "opened array slots");
        for(size_t k = 0; k < n; k++) { u64 v = norm(t, mix2(salt, k)); memcpy(d + (i + k) * tsz(t), &v, tsz(t)); am[t][i + k] = v; }
    }
    int exec(const Op& op) override {
        int nf0 = opctx().nfailed;
        auto failed = [&]() { return opctx().nfailed > nf0; };
        if(op.code <= S_BURST) {
            int k = (int) idx(op.a[0], 2); std::string& m = sm[k]; void* s = st[k]; int t = (int) idx(op.a[3], 9);
            size_t n = (size_t) op.a[2] % 5000;
            auto after_push = [&](bool ok, const std::string& data, const char* what) {
                if(!ok) {
                    CHECK(failed(), "spurious-fail", "stack %s of %zu bytes failed although no allocation failed", what, data.size());
                    CHECK(m.size() + data.size() > sprom[k], "capacity", "stack %s failed within the reserved space", what);
                    vstack(k, "after failed push"); return (int) R_FAULTED;
                }
                m += data; vstack(k, "after push"); return (int) R_OK;
            };
            switch(op.code) {
                case S_PUSH_T: { bool ok = shs_push_t(s, t, op.salt) == 0; return after_push(ok, bytes_of(t, op.salt), "push"); }
                case S_POP_T: {
                    if(m.size() < tsz(t)) return R_OK;
                    u64 v = shs_pop_t(s, t), e = val_of(t, m, m.size() - tsz(t));
                    CHECK(v == e, "content", "popped value %llx, expected %llx", (unsigned long long) v, (unsigned long long) e);
                    m.resize(m.size() - tsz(t)); sprom[k] = 0; vstack(k, "after pop"); return R_OK;
                }
                case S_PEEK_T: {
                    if(m.size() < tsz(t)) return R_OK;
                    u64 v = shs_peek_t(s, t), e = val_of(t, m, m.size() - tsz(t));
                    CHECK(v == e, "content", "peeked value %llx, expected %llx", (unsigned long long) v, (unsigned long long) e);
                    vstack(k, "after peek"); return R_OK;
                }
                case S_PUSH: { std::string d = payload(op.salt, n); HBuf h(d); bool ok = shs_push(s, h.p, n) == 0; return after_push(ok, d, "push"); }
                case S_PUSH_RAW: {
                    std::string d = payload(op.salt, n ? n : 1); void* p = shs_push_raw(s, d.size());
                    if(p) { chk_mem(p, d.size(), "raw stack space"); memcpy(p, d.data(), d.size()); }
                    return after_push(p != nullptr, d, "raw push");
                }
                case S_POP: {
                    size_t c = n > m.size() ? m.size() : n; if(!c) return R_OK;
                    HBuf out(c); shs_pop(s, out.p, c);
                    CHECK(out.str() == m.substr(m.size() - c), "content", "popped %zu bytes differ from the last ones pushed", c);
                    m.resize(m.size() - c); sprom[k] = 0; vstack(k, "after pop"); return R_OK;
                }
                case S_POP_RAW: {
                    size_t c = n > m.size() ? m.size() : n; if(!c) return R_OK;
                    void* p = shs_pop_raw(s, c);
                    CHECK(rd(p, c, "raw popped bytes") == m.substr(m.size() - c), "content", "raw popped bytes differ");
                    m.resize(m.size() - c); sprom[k] = 0; vstack(k, "after raw pop"); return R_OK;
                }
                case S_PEEK: {
                    size_t c = n > m.size() ? m.size() : n; if(!c) return R_OK;
                    HBuf out(c); shs_peek(s, out.p, c);
                    CHECK(out.str() == m.substr(m.size() - c), "content", "peeked bytes differ from the last ones pushed");
                    CHECK(rd(shs_peek_raw(s, c), c, "raw peek") == m.substr(m.size() - c), "content", "raw peek differs");
                    return R_OK;
                }
                case S_CLEAR: shs_clear(s); m.clear(); sprom[k] = 0; vstack(k, "after clear"); return R_OK;
                case S_ACQUIRE: { size_t z = 9; void* d = shs_acquire(s, &z); CHECK(z == m.size(), "content", "acquire size"); if(z) CHECK(rd(d, z, "acquired stack") == m, "content", "acquired stack bytes differ"); m.clear(); sprom[k] = 0; sim_free(d); vstack(k, "after acquire"); return R_OK; }
                case S_SWAP: shs_swap(st[0], st[1]); std::swap(sm[0], sm[1]); std::swap(sprom[0], sprom[1]); vstack(0, "after swap"); vstack(1, "after swap"); return R_OK;
                case S_RESERVE: {
                    int r = shs_reserve(s, n);
                    if(r != 0) CHECK(failed(), "spurious-fail", "stack reserve failed although no allocation failed");
                    else if(m.size() + n > sprom[k]) sprom[k] = m.size() + n;
                    vstack(k, "after reserve"); return r == 0 ? R_OK : R_FAULTED;
                }
                default: {   // a burst of pushes, then the same number of pops in LIFO order
                    std::vector<std::pair<int, u64>> pushed; int c = 1 + (int) (n % 40); u64 sd = op.salt; bool f = false;
                    for(int i = 0; i < c; i++) {
                        sd = mix2(sd, i); int ty = (int) (sd % 9);
                        int n0 = opctx().nfailed;
                        if(shs_push_t(s, ty, sd) != 0) { CHECK(opctx().nfailed > n0, "spurious-fail", "stack push failed although no allocation failed"); f = true; break; }
                        pushed.push_back({ty, sd}); m += bytes_of(ty, sd);
                    }
                    vstack(k, "after a burst of pushes");
                    while(!pushed.empty()) { auto pr = pushed.back(); pushed.pop_back(); u64 v = shs_pop_t(s, pr.first); CHECK(v == norm(pr.first, pr.second), "content", "LIFO order broken: popped %llx, expected %llx", (unsigned long long) v, (unsigned long long) norm(pr.first, pr.second)); m.resize(m.size() - tsz(pr.first)); }
                    sprom[k] = 0;
                    vstack(k, "after a burst of pops");
                    return f ? R_FAULTED : R_OK;
                }
            }
        }
        int t = (int) idx(op.a[0], 9); const SHA& A = sh_arrays[t]; void* a = ar[t]; auto& m = am[t];
        size_t i = op.a[1] == -1 ? m.size() : idx(op.a[1], m.size() + 1);
        size_t n = (size_t) op.a[2] % 2000; if(n == 0) n = 1;
        auto fin = [&](int r, size_t at, size_t cnt, int how) {   // how: 0 value, 1 raw
            if(r != 0) { CHECK(failed(), "spurious-fail", "array insertion of %zu item(s) failed although no allocation failed", cnt); varr(t, "after failed insertion"); return (int) R_FAULTED; }
            m.insert(m.begin() + at, cnt, 0);
            if(how == 0) m[at] = norm(t, op.salt);
            CHECK(A.size(a) == m.size(), "content", "array has %zu items after inserting %zu, expected %zu", A.size(a), cnt, m.size());
            if(how == 1) fill(t, at, cnt, op.salt);
            varr(t, "after insertion");
            return (int) R_OK;
        };
        switch(op.code) {
            case A_APPEND: { int r = A.append(a, op.salt); return fin(r, m.size(), 1, 0); }
            case A_INSERT: { int r = A.insert(a, i, op.salt); return fin(r, i, 1, 0); }
            case A_APPEND_RAW: { int r = A.append_raw(a); return fin(r, m.size(), 1, 1); }
            case A_INSERT_RAW: { int r = A.insert_raw(a, i); return fin(r, i, 1, 1); }
            case A_INSERT_N: { int r = A.insert_n_raw(a, i, n); return fin(r, i, n, 1); }
            case A_APPEND_N: { int r = A.append_n(a, n); return fin(r, m.size(), n, 1); }
            case A_SET: if(m.empty()) return R_OK; i %= m.size(); A.set(a, i, op.salt); m[i] = norm(t, op.salt); varr(t, "after set"); return R_OK;
            case A_GET: { if(m.empty()) return R_OK; i %= m.size(); u64 v = A.get(a, i); CHECK(v == m[i], "content", "get(%zu) gives %llx, expected %llx", i, (unsigned long long) v, (unsigned long long) m[i]); return R_OK; }
            case A_REMOVE: if(m.empty()) return R_OK; i %= m.size(); A.remove(a, i); m.erase(m.begin() + i); varr(t, "after remove"); return R_OK;
            case A_REMOVE_N: { size_t c = n > m.size() - i ? m.size() - i : n; A.remove_n(a, i, c); m.erase(m.begin() + i, m.begin() + i + c); varr(t, "after remove_n"); return R_OK; }
            case A_ACQUIRE: {
                size_t z = 7; void* d = A.acquire(a, &z); CHECK(z == m.size(), "content", "acquire reports %zu items, expected %zu", z, m.size());
                std::string raw = rd(d, z * tsz(t), "acquired array"); for(size_t q = 0; q < z; q++) CHECK(val_of(t, raw, q * tsz(t)) == m[q], "content", "acquired item %zu differs", q);
                sim_free(d); m.clear(); varr(t, "after acquire"); return R_OK;
            }
            case A_HUGE: {
                size_t h = (size_t) op.a[2]; if(h < (64u << 20)) h = ~(size_t) 0 - h;
                if(tsz(t) > 1 && (op.salt & 2)) h = ~(size_t) 0 / tsz(t) + 1 + (size_t) ((op.salt >> 8) & 63);   // the size in bytes wraps around
                else { h /= tsz(t); if(h * tsz(t) < (64u << 20)) return R_OK; }
                int r = (op.salt & 1) ? A.append_n(a, h) : A.insert_n_raw(a, i, h);
                CHECK(r != 0, "oversize", "adding %zu items of %zu bytes was reported as successful", h, tsz(t));
                note_fault("oversized request"); varr(t, "after a refused oversized request"); return R_OK;
            }
            case A_CYCLE: A.fini(a); memset(a, 0x5a, shb_sizeof()); A.init(a); m.clear(); varr(t, "after fini and init"); return R_OK;
            default: varr(t, "on reading"); return R_OK;
        }
    }
    void finish() override {
        for(int k = 0; k < 2; k++) { vstack(k, "at the end"); shs_fini(st[k]); h_free(st[k]); }
        for(int t = 0; t < 9; t++) { varr(t, "at the end"); sh_arrays[t].fini(ar[t]); h_free(ar[t]); }
    }
    u64 state_hash() override { u64 h = 2; for(auto& s : sm) h = mix2(h, s.size()); for(auto& a : am) h = mix2(h, a.size()); return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"stack push typed", "stack pop typed", "stack peek typed", "stack push", "stack pop", "stack peek", "stack push_raw", "stack pop_raw", "stack clear", "stack acquire", "stack swap", "stack reserve", "stack burst",
            "array append", "array insert", "array append_raw", "array insert_raw", "array insert_n_raw", "array append_n", "array set", "array get", "array remove", "array remove_n", "array acquire", "array oversized", "array read", "array fini+init"};
        char t[160]; snprintf(t, sizeof t, "%s target=%lld index=%lld n=%llu type=%lld", nm[op.code % N_OPS], (long long) op.a[0], (long long) op.a[1], (unsigned long long) op.a[2], (long long) op.a[3]); return t;
    }
};
}
Machine* make_buffer() { return new BufMachine; }
Machine* make_array() { return new ArrMachine; }
