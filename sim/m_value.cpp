// VALUE trees: general trees, dictionaries, and textual paths.
#include "util.h"
#include "shim.h"
#include "data/value.h"
#include <algorithm>
#include <climits>
#include <cmath>
extern "C" int value_dict_verify(VALUE*) __attribute__((weak));

namespace {

static const char* tname[] = {"NULL", "BOOL", "INT32", "UINT32", "INT64", "UINT64", "FLOAT", "DOUBLE", "STRING", "ARRAY", "DICT"};

// ------------------------------------------------------- dictionary orders
static u64 g_ncmp[10];
static int lex(const char* a, size_t n, const char* b, size_t m) {
    size_t k = n < m ? n : m; int c = 0;
    for(size_t i = 0; i < k && !c; i++) c = (int) (u8) a[i] - (int) (u8) b[i];
    return c ? c : n < m ? -1 : n > m ? 1 : 0;
}
static int low(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int ilex(const char* a, size_t n, const char* b, size_t m) {
    size_t k = n < m ? n : m; int c = 0;
    for(size_t i = 0; i < k && !c; i++) c = low((u8) a[i]) - low((u8) b[i]);
    return c ? c : n < m ? -1 : n > m ? 1 : 0;
}
static int order(int kind, const char* a, size_t n, const char* b, size_t m) {
    switch(kind) {
        case 0: case 4: return lex(a, n, b, m);
        case 1: return lex(b, m, a, n);
        case 2: return ilex(a, n, b, m);
        case 3: return n != m ? (n < m ? -1 : 1) : lex(a, n, b, m);
        default: return lex(a, n, b, m);
    }
}
static void cmp_in(const char* a, size_t n, const char* b, size_t m) {
    sim_point(); chk_mem(a, n, "key passed to the comparator"); chk_mem(b, m, "key passed to the comparator");
    g_ncmp[(cur_task() + 1) & 7]++;
}
static int cmp1(const char* a, size_t n, const char* b, size_t m) { cmp_in(a, n, b, m); return order(1, a, n, b, m); }
static int cmp2(const char* a, size_t n, const char* b, size_t m) { cmp_in(a, n, b, m); return order(2, a, n, b, m); }
static int cmp3(const char* a, size_t n, const char* b, size_t m) { cmp_in(a, n, b, m); return order(3, a, n, b, m); }
static int cmp4(const char* a, size_t n, const char* b, size_t m) {
    cmp_in(a, n, b, m); int c = order(4, a, n, b, m); u64 r = mix2(fnv(a, n), fnv(b, m)) % 4;
    int mag = r == 0 ? 1 : r == 1 ? 256 : r == 2 ? 65536 : 0x7fffffff; return c < 0 ? (mag == 0x7fffffff ? INT_MIN : -mag) : c > 0 ? mag : 0;
}
typedef int (*KCMP)(const char*, size_t, const char*, size_t);
static KCMP kcmp[5] = {nullptr, cmp1, cmp2, cmp3, cmp4};
struct KLess { int kind = 0; bool operator()(const std::string& a, const std::string& b) const { return order(kind, a.data(), a.size(), b.data(), b.size()) < 0; } };

// -------------------------------------------------------------------- model
struct MV;
struct Ent { MV* v; u64 seq; };
struct MV {
    int type = VALUE_NULL; bool isnew = false, either = false;
    u64 bits = 0; std::string s;
    std::vector<MV*> arr;
    std::map<std::string, Ent, KLess>* d = nullptr; int kind = 0; bool ordered = false; u64 seq = 0;
    ~MV() { clear(); }
    void clear() { for(MV* x : arr) delete x; arr.clear(); if(d) { for(auto& e : *d) delete e.second.v; delete d; d = nullptr; } }
    void null() { clear(); type = VALUE_NULL; isnew = either = false; s.clear(); bits = 0; }
    void fresh() { null(); isnew = true; }
    void mkdict(int k, bool o) { clear(); type = VALUE_DICT; kind = k; ordered = o; isnew = either = false; KLess l; l.kind = k; d = new std::map<std::string, Ent, KLess>(l); seq = 0; }
    void mkarr() { clear(); type = VALUE_ARRAY; isnew = either = false; }
    size_t count() const { size_t n = 1; for(MV* x : arr) n += x->count(); if(d) for(auto& e : *d) n += e.second.v->count(); return n; }
    std::vector<std::pair<std::string, MV*>> by_order() const {
        std::vector<std::pair<u64, std::pair<std::string, MV*>>> t; for(auto& e : *d) t.push_back({e.second.seq, {e.first, e.second.v}});
        std::sort(t.begin(), t.end(), [](auto& a, auto& b) { return a.first < b.first; });
        std::vector<std::pair<std::string, MV*>> r; for(auto& x : t) r.push_back(x.second); return r;
    }
};
struct Step { size_t i; std::string k; bool key; };
typedef std::vector<Step> Path;

// Compares the library's value with the model; returns "" if equal.
static std::string diff(const VALUE* v, const MV* m, bool logit, int depth = 0) {
    char b[200];
    if((uintptr_t) v < 65536) return "a value which should exist is not found";
    int t = (int) value_type(v);
    if(t != m->type) { snprintf(b, sizeof b, "a value has type %s, expected %s", t <= 10 ? tname[t] : "?", tname[m->type]); return b; }
    if(logit) log_result((u64) t);
    int nw = value_is_new(v) != 0;
    if(!m->either && nw != (int) m->isnew) { snprintf(b, sizeof b, "a %s value is%s reported as new", tname[t], nw ? "" : " not"); return b; }
    switch(t) {
        case VALUE_BOOL: if(value_bool(v) != (int) m->bits) return "BOOL differs"; break;
        case VALUE_INT32: if(value_int32(v) != (int32_t) m->bits || value_int64(v) != (i64) (int32_t) m->bits) return "INT32 differs"; break;
        case VALUE_UINT32: if(value_uint32(v) != (u32) m->bits || value_uint64(v) != (u64) (u32) m->bits) return "UINT32 differs"; break;
        case VALUE_INT64: if(value_int64(v) != (i64) m->bits) return "INT64 differs"; break;
        case VALUE_UINT64: if(value_uint64(v) != m->bits) return "UINT64 differs"; break;
        case VALUE_FLOAT: { float f = value_float(v); u32 x; memcpy(&x, &f, 4); if(x != (u32) m->bits) return "FLOAT differs"; break; }
        case VALUE_DOUBLE: { double f = value_double(v); u64 x; memcpy(&x, &f, 8); if(x != m->bits) return "DOUBLE differs"; break; }
        case VALUE_STRING: {
            size_t n = value_string_length(v);
            if(n != m->s.size()) { snprintf(b, sizeof b, "string of length %zu reports length %zu", m->s.size(), n); return b; }
            const char* s = value_string(v);
            chk_mem(s, n + 1, "string");
            if(memcmp(s, m->s.data(), n) != 0) { snprintf(b, sizeof b, "string of length %zu has wrong bytes", n); return b; }
            if(s[n] != 0) { snprintf(b, sizeof b, "string of length %zu is not terminated", n); return b; }
            if(logit) log_bytes(s, n);
            break;
        }
        case VALUE_ARRAY: {
            size_t n = value_array_size(v);
            if(n != m->arr.size()) { snprintf(b, sizeof b, "array has %zu items, expected %zu", n, m->arr.size()); return b; }
            VALUE* all = value_array_get_all(v);
            if(n) chk_mem(all, n * sizeof(VALUE), "array items");
            for(size_t i = 0; i < n; i++) {
                VALUE* x = value_array_get(v, i);
                if(x != all + i) return "array get() and get_all() disagree";
                std::string r = diff(x, m->arr[i], logit, depth + 1); if(!r.empty()) { if(depth < 3) { snprintf(b, sizeof b, "[%zu]: ", i); return b + r; } return r; }
            }
            if(value_array_get(v, n) != nullptr) return "array get() past the end gives a value";
            break;
        }
        case VALUE_DICT: {
            size_t n = value_dict_size(v);
            if(n != m->d->size()) { snprintf(b, sizeof b, "dictionary has %zu items, expected %zu", n, m->d->size()); return b; }
            if((value_dict_flags(v) & VALUE_DICT_MAINTAINORDER) != (m->ordered ? VALUE_DICT_MAINTAINORDER : 0u)) return "dictionary flags differ";
            for(auto& e : *m->d) {
                VALUE* x; { HBuf k(e.first); x = value_dict_get_(v, k.c(), k.n); }
                if(!x) { snprintf(b, sizeof b, "dictionary key of length %zu is not found", e.first.size()); return b; }
                std::string r = diff(x, e.second.v, logit, depth + 1); if(!r.empty()) return depth < 3 ? "{}: " + r : r;
            }
            break;
        }
        default: break;
    }
    return "";
}

struct WalkCtx { std::vector<std::pair<std::string, MV*>> exp; size_t n = 0; size_t stop_at = ~(size_t) 0; int code = 0; const VALUE* dict; bool modify = false; u64 salt = 0; };
static int visit(const VALUE* key, VALUE* val, void* p) {
    sim_point();
    WalkCtx* w = (WalkCtx*) p; u64 before = cur_task(); (void) before;
    CHECK(w->n < w->exp.size(), "content", "walk visits more than the %zu items present", w->exp.size());
    CHECK(value_type(key) == VALUE_STRING, "content", "walk: key is not a string");
    std::string k = rd(value_string(key), value_string_length(key), "walk key");
    CHECK(k == w->exp[w->n].first, "content", "walk: item #%zu has an unexpected key", w->n);
    log_bytes(k.data(), k.size());
    { HBuf kb(k); CHECK(value_dict_get_(w->dict, kb.c(), kb.n) == val, "content", "walk: value pointer is not the item's value"); }
    MV* m = w->exp[w->n].second;
    std::string d = diff(val, m, false, 3); CHECK(d.empty(), "content", "walk: item #%zu: %s", w->n, d.c_str());
    if(w->modify && m->type < VALUE_STRING) { i64 x = (i64) mix2(w->salt, w->n); value_init_int64(val, x); m->null(); m->type = VALUE_INT64; m->bits = (u64) x; }
    if(w->n++ == w->stop_at) return w->code;
    return 0;
}

// -------------------------------------------------------- the base machine
struct ValBase : Machine {
    VALUE* root[2]; MV* m[2];
    ValBase() { root[0] = root[1] = nullptr; m[0] = m[1] = nullptr; }
    ~ValBase() override { delete m[0]; delete m[1]; }
    void start() override { for(int i = 0; i < 2; i++) { root[i] = (VALUE*) h_alloc(sizeof(VALUE)); static const VALUE z = VALUE_NULL_INITIALIZER; *root[i] = z; m[i] = new MV; } }
    void finish() override {
        for(int i = 0; i < 2; i++) {
            verify(i, "at the end"); value_fini(root[i]); m[i]->null(); verify(i, "after fini");
            value_fini(root[i]); verify(i, "after a second fini"); h_free(root[i]);
        }
    }
    void verify(int i, const char* when) { std::string d = diff(root[i], m[i], true); CHECK(d.empty(), "content", "%s: %s", when, d.c_str()); log_result(1); }
    static void collect(MV* v, int type, Path& cur, std::vector<std::pair<Path, MV*>>& out, size_t cap) {
        if(out.size() >= cap) return;
        if(type < 0 || v->type == type || (type == 100 && v->type != VALUE_ARRAY && v->type != VALUE_DICT)) out.push_back({cur, v});
        for(size_t i = 0; i < v->arr.size(); i++) { if(type == VALUE_DICT || type == VALUE_ARRAY) { int t = v->arr[i]->type; if(t != VALUE_ARRAY && t != VALUE_DICT) continue; } cur.push_back({i, "", false}); collect(v->arr[i], type, cur, out, cap); cur.pop_back(); }
        if(v->d) for(auto& e : *v->d) { if(type == VALUE_DICT || type == VALUE_ARRAY) { int t = e.second.v->type; if(t != VALUE_ARRAY && t != VALUE_DICT) continue; } cur.push_back({0, e.first, true}); collect(e.second.v, type, cur, out, cap); cur.pop_back(); }
    }
    bool pick(int r, int type, i64 sel, Path& p, MV*& v) {
        std::vector<std::pair<Path, MV*>> c; Path cur; collect(m[r], type, cur, c, 300);
        if(c.empty()) return false;
        size_t k = idx(sel, c.size()); p = c[k].first; v = c[k].second; return true;
    }
    VALUE* resolve(int r, const Path& p) {
        VALUE* v = root[r];
        for(auto& s : p) {
            if(s.key) { HBuf k(s.k); v = value_dict_get_(v, k.c(), k.n); } else v = value_array_get(v, s.i);
            CHECK(v != nullptr, "content", "an existing item is not found");
        }
        return v;
    }
    static std::string str_of(u64 salt, i64 sz) { return payload(salt, (size_t) sz); }
    // Initialises an uninitialised or NULL slot. Returns false if memory ran out.
    bool init(VALUE* v, MV* x, int type, u64 salt, i64 sz) {
        int nf0 = opctx().nfailed; int r = 0; bool was_new = x->isnew || x->either;
        MV n;
        switch(type) {
            case VALUE_NULL: value_init_null(v); break;
            case VALUE_BOOL: { static const int bs[] = {0, 1, 2, -1, 256, 65536, 1 << 24, (int) 0x80000000u}; int b = bs[salt % 8]; n.bits = b != 0; r = value_init_bool(v, b); break; }
            case VALUE_INT32: n.bits = (u64) (i64) (int32_t) salt; r = value_init_int32(v, (int32_t) salt); break;
            case VALUE_UINT32: n.bits = (u32) salt; r = value_init_uint32(v, (u32) salt); break;
            case VALUE_INT64: n.bits = salt; r = value_init_int64(v, (i64) salt); break;
            case VALUE_UINT64: n.bits = salt; r = value_init_uint64(v, salt); break;
            case VALUE_FLOAT: { float f = (float) (i64) salt / 3.0f; u32 b; memcpy(&b, &f, 4); n.bits = b; r = value_init_float(v, f); break; }
            case VALUE_DOUBLE: { double f = (double) (i64) salt / 7.0; memcpy(&n.bits, &f, 8); r = value_init_double(v, f); break; }
            case VALUE_STRING: {
                n.s = str_of(salt, sz);
                if(n.s.empty() && (salt & 1)) { r = (salt & 2) ? value_init_string(v, nullptr) : value_init_string_(v, nullptr, 0); break; }
                if((salt & 7) == 3) { for(char& c : n.s) if(!c) c = 'z'; HBuf h(n.s + std::string(1, 0)); r = value_init_string(v, h.c()); }
                else { HBuf h(n.s); r = value_init_string_(v, h.c(), n.s.size()); }
                break;
            }
            case VALUE_ARRAY: r = value_init_array(v); break;
            default: {
                int kind = (int) (salt % 8); if(kind > 4) kind = 0; bool ord = (salt >> 8) & 1;
                if(kind == 0 && !ord && (salt & 0x10000)) r = value_init_dict(v);
                else r = value_init_dict_ex(v, kcmp[kind], ord ? VALUE_DICT_MAINTAINORDER : 0);
                if(r == 0) { x->mkdict(kind, ord); return true; }
            }
        }
        if(r != 0) {
            CHECK(r == -1, "result", "a failed initialisation returned %d", r);
            CHECK(opctx().nfailed > nf0, "spurious-fail", "initialising a value as %s failed although no allocation failed", tname[type]);
            x->null(); x->either = was_new; return false;
        }
        x->null(); x->type = type; x->bits = n.bits; x->s = n.s;
        return true;
    }
    static i64 gsize(Rng& g, i64 prof) {
        switch(g.below(prof == 3 ? 6 : 12)) {
            case 0: return g.range(10, 16);
            case 1: return g.range(124, 132);
            case 2: return prof == 3 ? g.range(16380, 16388) : g.range(0, 300);
            case 3: return prof == 3 && g.chance(1, 12) ? g.range(2097148, 2097156) : g.range(0, 40);
            default: return g.range(0, 20);
        }
    }
    std::string keyof(u64 k, i64 style) {
        // keys which share prefixes, differ in case, contain zero bytes, are empty, or are long
        char b[64];
        switch(style % 5) {
            case 4: {   // only a few distinct letters in front, then prefixes of each other whose lengths differ by anything up to 70 kB
                static const u32 far[] = {32766, 32767, 32768, 32769, 40000, 65534, 65535, 65536, 65537, 65538, 65792, 66047, 98304};
                size_t len = k % 24 == 23 ? far[k / 24 % 13] : k % 3 == 0 ? (size_t) (k / 3 % 64) * 16 : k % 3 == 1 ? (size_t) (k / 3 % 150) : (size_t) (k / 3 % 40) + 250; return std::string(k % 7 == 6 ? 0 : 1, (char) ('p' + k % 2)) + std::string(len, k % 5 == 4 ? '\xfe' : 'p'); }
            case 0: snprintf(b, sizeof b, "k%llu", (unsigned long long) k); return b;
            case 1: { if(k == 0) return ""; std::string s; u64 x = k; while(x) { s += (char) ("aAbB\0\x7f\x80\xff"[x % 8]); x /= 8; } return s; }
            case 2: { std::string s((size_t) (k % 17) * 8, 'p'); snprintf(b, sizeof b, "%llu", (unsigned long long) (k / 17)); return s + b; }
            default: { if(k % 50 == 7) { snprintf(b, sizeof b, "%llu", (unsigned long long) k); return std::string(120 + k % 20, 'L') + b; } snprintf(b, sizeof b, "%c%c%llu", k & 1 ? 'K' : 'k', k & 2 ? 'e' : 'E', (unsigned long long) (k / 4)); return b; }
        }
    }
    u64 state_hash() override { u64 h = 6; for(int i = 0; i < 2; i++) h = mix2(h, sh(m[i], 0)); return h; }
    static u64 sh(MV* v, int d) { u64 h = v->type * 4 + v->isnew; h = mix2(h, v->arr.size() * 8 + (v->d ? v->d->size() : 0)); if(d < 2) { int c = 0; for(MV* x : v->arr) { if(++c > 6) break; h = mix2(h, sh(x, d + 1)); } } if(v->d && d < 1) { int c = 0; for(auto& e : *v->d) { if(++c > 6) break; h = mix2(h, fnvs(e.first)); } } return h; }
};

struct ValMachine : ValBase {
    bool dictfocus;
    explicit ValMachine(bool df) : dictfocus(df) {}
    enum { V_SET, V_APPEND, V_INSERT, V_REMOVE, V_RANGE, V_ACLEAN, V_ADD, V_GETADD, V_DREMOVE, V_DCLEAN, V_DGET, V_KEYS, V_WALK, V_VERIFY, V_WRONG, V_FINIROOT, V_BULKADD, V_BULKREM, V_BULKAPP, V_READD, V_N };
    void gen_cfg(Rng& g, Plan& p) override {
        p.cfg[C_P0] = dictfocus ? 1 : (i64) (g.below(4) == 1 ? 2 : g.below(4));
        p.cfg[C_P1] = (i64) g.below(5);
        static const i64 un[] = {8, 30, 90, 300}; p.cfg[C_P2] = un[g.below(4)];
        p.cfg[C_P3] = (i64) g.below(5); p.cfg[C_P4] = (i64) g.below(2);   // dict focus: comparator kind, ordered
    }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        //                          SET APP INS REM RNG ACL ADD GAD DRM DCL DGT KEY WLK VER WRG FIN BAD BRM BAP READD
        static const int w0[V_N] = {22, 14, 10, 8,  5,  1,  10, 9,  8,  1,  4,  2,  4,  4,  4,  1,  2,  1,  2,  3};
        static const int w1[V_N] = {3,  1,  0,  0,  0,  0,  22, 14, 22, 1,  8,  9,  12, 3,  1,  1,  5,  3,  0,  3};
        static const int w2[V_N] = {14, 22, 18, 12, 12, 2,  3,  2,  2,  1,  1,  1,  1,  5,  2,  1,  1,  1,  7,  1};
        i64 prof = p.cfg[C_P0]; const int* wt = prof == 1 ? w1 : prof == 2 ? w2 : w0; int tot = 0; for(int i = 0; i < V_N; i++) tot += wt[i];
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), c = 0; while(r >= wt[c]) r -= wt[c++];
            o.code = c;
            o.a[0] = g.chance(7, 8) ? 0 : 1;
            o.a[1] = g.chance(1, 3) ? 0 : (i64) (g.next() >> 1);
            o.a[2] = (i64) g.below((u64) p.cfg[C_P2]);
            // type for V_SET etc; otherwise an index or count
            static const int ty[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 8, 9, 9, 9, 10, 10, 10};
            o.a[3] = ty[g.below(18)];
            if(prof == 2 && g.chance(1, 3)) o.a[3] = 9;
            o.a[4] = gsize(g, prof);
            o.a[5] = c == V_RANGE && g.chance(1, 4) ? (i64) huge_size(g) : g.chance(1, 4) ? -1 : (i64) g.below(40);
            o.salt = g.next();
            o.fail = is_reader(o) ? 0 : gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == V_DGET || op.code == V_KEYS || op.code == V_VERIFY || (op.code == V_WALK && !(op.salt & 8)); }
    void start() override {
        ValBase::start();
        // Roots start as containers so that there is something to work on.
        if(plan->cfg[C_P0] == 1) { int k = (int) idx(plan->cfg[C_P3], 5); bool o = plan->cfg[C_P4] & 1; int r = value_init_dict_ex(root[0], kcmp[k], o ? VALUE_DICT_MAINTAINORDER : 0); CHECK(r == 0, "spurious-fail", "dictionary initialisation failed"); m[0]->mkdict(k, o); r = value_init_dict_ex(root[1], kcmp[(k + 1) % 5], o ? 0 : VALUE_DICT_MAINTAINORDER); CHECK(r == 0, "spurious-fail", "dictionary initialisation failed"); m[1]->mkdict((k + 1) % 5, !o); }
        else { int r = value_init_dict(root[0]); CHECK(r == 0, "spurious-fail", "dictionary initialisation failed"); m[0]->mkdict(0, false); r = value_init_array(root[1]); CHECK(r == 0, "spurious-fail", "array initialisation failed"); m[1]->mkarr(); }
    }
    void dictcheck(VALUE* v, MV* x) {
        CHECK(value_dict_size(v) == x->d->size(), "content", "dictionary has %zu items, expected %zu", value_dict_size(v), x->d->size());
        if(value_dict_verify) CHECK(value_dict_verify(v) == 0, "balance", "red-black rules of a dictionary are broken with %zu items", x->d->size());
    }
    void keys(VALUE* v, MV* x, bool ordered, size_t cap) {
        HBuf hb(cap * sizeof(VALUE*)); const VALUE** buf = (const VALUE**) hb.p;
        size_t n = ordered ? value_dict_keys_ordered(v, buf, cap) : value_dict_keys_sorted(v, buf, cap);
        if(ordered && !x->ordered) { CHECK(n == 0, "content", "insertion-ordered keys of a dictionary which does not keep the order: %zu", n); return; }
        size_t want = std::min(cap, x->d->size());
        CHECK(n == want, "content", "%zu keys retrieved into a buffer of %zu, expected %zu", n, cap, want);
        std::vector<std::string> exp; if(ordered) for(auto& e : x->by_order()) exp.push_back(e.first); else for(auto& e : *x->d) exp.push_back(e.first);
        for(size_t i = 0; i < n; i++) { chk_mem(buf[i], sizeof(VALUE), "key"); CHECK(value_type(buf[i]) == VALUE_STRING, "content", "key is not a string"); std::string s = rd(value_string(buf[i]), value_string_length(buf[i]) + 1, "key"); CHECK(s == exp[i] + std::string(1, 0), "content", "%s key #%zu is not the expected one", ordered ? "insertion-ordered" : "sorted", i); log_bytes(s.data(), s.size()); }
    }
    int add(VALUE* v, MV* x, const std::string& k, bool getadd, u64 salt, int type, i64 sz, bool leave_new) {
        int nf0 = opctx().nfailed; bool have = x->d->count(k) != 0;
        u64 c0 = g_ncmp[(cur_task() + 1) & 7];
        VALUE* r; bool hasz = k.find('\0') != std::string::npos;
        { HBuf kb(hasz ? k : k + std::string(1, 0));
          if(hasz || (salt & 4)) r = getadd ? value_dict_get_or_add_(v, kb.c(), k.size()) : value_dict_add_(v, kb.c(), k.size());
          else if(k.empty() && (salt & 8) && getadd && x->kind == 0) r = value_dict_get_or_add(v, nullptr);
          else r = getadd ? value_dict_get_or_add(v, kb.c()) : value_dict_add(v, kb.c()); }
        if(x->kind) { u64 c = g_ncmp[(cur_task() + 1) & 7] - c0, lim = (u64) (8.0 * std::log2((double) x->d->size() + 2.0) + 8.0); if(R_serialish()) CHECK(c <= lim, "balance", "adding a key took %llu comparisons in a dictionary of %zu items (at most %llu if it is balanced)", (unsigned long long) c, x->d->size(), (unsigned long long) lim); }
        log_result(r != nullptr);
        if(have && !getadd) { CHECK(r == nullptr, "content", "adding a key which is already present returned its value"); dictcheck(v, x); return R_OK; }
        if(have) {
            HBuf kb(k); CHECK(r != nullptr && r == value_dict_get_(v, kb.c(), k.size()), "content", "get_or_add of a present key does not return its value");
            std::string d = diff(r, (*x->d)[k].v, false, 3); CHECK(d.empty(), "content", "get_or_add of a present key: %s", d.c_str());
            dictcheck(v, x); return R_OK;
        }
        if(!r) { CHECK(opctx().nfailed > nf0, "spurious-fail", "adding a new key failed although no allocation failed"); dictcheck(v, x); return R_FAULTED; }
        MV* n = new MV; n->fresh(); (*x->d)[k] = Ent{n, x->seq++};
        CHECK(value_is_new(r) && value_type(r) == VALUE_NULL, "content", "a freshly added value is not marked as new");
        dictcheck(v, x);
        if(leave_new) return R_OK;
        return init(r, n, type, salt >> 5, sz) ? R_OK : R_FAULTED;
    }
    bool R_serialish() { return true; }
    void dremove(VALUE* v, MV* x, const std::string& k, u64 salt) {
        bool have = x->d->count(k); int r; bool hasz = k.find('\0') != std::string::npos;
        if(have && (salt & 0x30) == 0x30 && x->d->size() <= 64) {   // by the text of the dictionary's own key
            size_t n = x->d->size(), i = (size_t) std::distance(x->d->begin(), x->d->find(k)); const VALUE** b = (const VALUE**) h_alloc(n * sizeof(VALUE*));
            CHECK(value_dict_keys_sorted(v, b, n) == n, "content", "sorted keys of %zu items are incomplete", n); const VALUE* own = b[i]; h_free(b);
            r = (salt & 64) && !hasz ? value_dict_remove(v, value_string(own)) : value_dict_remove_(v, value_string(own), value_string_length(own));
        } else { HBuf kb(hasz ? k : k + std::string(1, 0)); r = hasz || (salt & 4) ? value_dict_remove_(v, kb.c(), k.size()) : (k.empty() && (salt & 8) && x->kind == 0) ? value_dict_remove(v, nullptr) : value_dict_remove(v, kb.c()); }
        CHECK(r == (have ? 0 : -1), "content", "removing %s key returned %d", have ? "a present" : "an absent", r);
        if(have) { auto it = x->d->find(k); delete it->second.v; x->d->erase(it); }
        dictcheck(v, x); log_result((u64) r);
    }
    std::string pickkey(MV* x, const Op& op) {
        if((op.salt & 0x300) && !x->d->empty() && (op.code == V_DREMOVE || op.code == V_DGET)) { auto it = x->d->begin(); std::advance(it, idx((i64) (op.salt >> 12), x->d->size())); return it->first; }
        return keyof((u64) op.a[2], plan->cfg[C_P1]);
    }
    int exec(const Op& op) override {
        int r = (int) idx(op.a[0], 2); Path p; MV* x = nullptr; int type = (int) idx(op.a[3], 11);
        int res = R_OK;
        if(m[0]->count() + m[1]->count() > 4000) { for(int i = 0; i < 2; i++) { value_fini(root[i]); m[i]->null(); } start_again(); }
        bool full = true;
        switch(op.code) {
            case V_SET: {
                // any value below the roots, or a root which is not a container
                if(!pick(r, (op.salt & 3) ? 100 : -1, op.a[1], p, x)) break;
                if(p.empty() && (op.salt & 0x1f0)) break;
                VALUE* v = resolve(r, p);
                if(!(x->isnew && (op.salt & 0x200))) { value_fini(v); x->null(); std::string d = diff(v, x, false); CHECK(d.empty(), "content", "after value_fini(): %s", d.c_str()); }
                if(!init(v, x, type, op.salt >> 12, op.a[4])) res = R_FAULTED;
                break;
            }
            case V_APPEND: case V_INSERT: {
                if(!pick(r, VALUE_ARRAY, op.a[1], p, x) && !pick(r = 1 - r, VALUE_ARRAY, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); int nf0 = opctx().nfailed;
                size_t n = x->arr.size(), at = op.a[5] == -1 ? n : idx(op.a[5], n + 3);
                bool app = op.code == V_APPEND; if(app) at = n;
                VALUE* y = app ? value_array_append(v) : value_array_insert(v, at);
                log_result(y != nullptr);
                if(at > n) { CHECK(!y, "content", "inserting at index %zu of an array of %zu items was accepted", at, n); break; }
                if(!y) { CHECK(opctx().nfailed > nf0, "spurious-fail", "adding an array item failed although no allocation failed (%zu items)", n); res = R_FAULTED; break; }
                MV* nv = new MV; nv->fresh(); x->arr.insert(x->arr.begin() + at, nv);
                CHECK(y == value_array_get(v, at), "content", "the returned pointer is not item %zu", at);
                CHECK(value_is_new(y), "content", "a freshly added item is not marked as new");
                if((op.salt & 7) != 0 && !init(y, nv, type, op.salt >> 12, op.a[4])) res = R_FAULTED;
                break;
            }
            case V_REMOVE: {
                if(!pick(r, VALUE_ARRAY, op.a[1], p, x) && !pick(r = 1 - r, VALUE_ARRAY, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); size_t n = x->arr.size(), at = idx(op.a[5], n + ((op.salt & 7) == 0 ? 2 : 0)); if(n == 0 && (op.salt & 7)) at = 0;
                int q = value_array_remove(v, at);
                CHECK(q == (at < n ? 0 : -1), "content", "removing item %zu of %zu returned %d", at, n, q);
                if(at < n) { delete x->arr[at]; x->arr.erase(x->arr.begin() + at); }
                break;
            }
            case V_RANGE: {
                if(!pick(r, VALUE_ARRAY, op.a[1], p, x) && !pick(r = 1 - r, VALUE_ARRAY, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); size_t n = x->arr.size(), at = idx((i64) (op.salt >> 10), n + 2), c = op.a[5] == -1 ? (at <= n ? n - at : 0) : (size_t) op.a[5];
                if((op.salt & 0x300) == 0x100 && c > 1000) c = 0 - at + idx((i64) (op.salt >> 40), n + 1);   // at + c wraps to at most n
                bool ok = at <= n && c <= n - at;
                int q = value_array_remove_range(v, at, c);
                CHECK(q == (ok ? 0 : -1), "content", "removing %zu items at %zu from %zu returned %d", c, at, n, q);
                if(ok) { for(size_t i = 0; i < c; i++) delete x->arr[at + i]; x->arr.erase(x->arr.begin() + at, x->arr.begin() + at + c); }
                break;
            }
            case V_ACLEAN: { if(!pick(r, VALUE_ARRAY, op.a[1], p, x)) break; value_array_clean(resolve(r, p)); for(MV* y : x->arr) delete y; x->arr.clear(); break; }
            case V_ADD: case V_GETADD: case V_READD: {
                if(!pick(r, VALUE_DICT, op.a[1], p, x) && !pick(r = 1 - r, VALUE_DICT, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); std::string k = pickkey(x, op);
                if(op.code == V_READD) {   // add, leave the value new, and add or look it up again
                    res = add(v, x, k, false, op.salt, type, op.a[4], true);
                    if(res == R_OK) res = add(v, x, k, op.salt & 64, op.salt, type, op.a[4], true);
                } else res = add(v, x, k, op.code == V_GETADD, op.salt, type, op.a[4], (op.salt & 0xf00) == 0);
                break;
            }
            case V_DREMOVE: { if(!pick(r, VALUE_DICT, op.a[1], p, x) && !pick(r = 1 - r, VALUE_DICT, op.a[1], p, x)) break; VALUE* v = resolve(r, p); dremove(v, x, pickkey(x, op), op.salt); break; }
            case V_DCLEAN: { if(!pick(r, VALUE_DICT, op.a[1], p, x)) break; value_dict_clean(resolve(r, p)); for(auto& e : *x->d) delete e.second.v; x->d->clear(); break; }
            case V_DGET: {
                if(!pick(r, VALUE_DICT, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); std::string k = pickkey(x, op); bool hasz = k.find('\0') != std::string::npos; HBuf kb(hasz ? k : k + std::string(1, 0));
                VALUE* y = hasz || (op.salt & 4) ? value_dict_get_(v, kb.c(), k.size()) : value_dict_get(v, kb.c());
                auto it = x->d->find(k); CHECK((y != nullptr) == (it != x->d->end()), "content", "dictionary lookup %s", y ? "finds an absent key" : "misses a present key");
                if(y) { std::string d = diff(y, it->second.v, true); CHECK(d.empty(), "content", "looked up value: %s", d.c_str()); }
                return R_OK;
            }
            case V_KEYS: {
                if(!pick(r, VALUE_DICT, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); size_t n = x->d->size(); size_t caps[] = {0, n ? n - 1 : 0, n, n + 1, n / 2, 1};
                size_t cap = caps[op.salt % 6]; keys(v, x, false, cap); keys(v, x, true, cap); return R_OK;
            }
            case V_WALK: {
                if(!pick(r, VALUE_DICT, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); bool ord = op.salt & 1;
                WalkCtx w; w.dict = v; w.modify = op.salt & 8; w.salt = op.salt;
                if(ord) { if(x->ordered) w.exp = x->by_order(); } else for(auto& e : *x->d) w.exp.push_back({e.first, e.second.v});
                static const int codes[] = {1, -1, 2, -2, 77, 0x7fffffff, (int) 0x80000000, 256};
                size_t n = w.exp.size();
                if(op.salt & 2) { w.stop_at = idx((i64) (op.salt >> 10), n + 1); w.code = codes[(op.salt >> 4) & 7]; }
                int q = ord ? value_dict_walk_ordered(v, visit, &w) : value_dict_walk_sorted(v, visit, &w);
                if(ord && !x->ordered) { CHECK(q == -1 && w.n == 0, "content", "an ordered walk of a dictionary which keeps no order returned %d after %zu visits", q, w.n); break; }
                if(w.stop_at < n) { CHECK(q == w.code, "content", "an aborted walk returned %d, the callback returned %d", q, w.code); CHECK(w.n == w.stop_at + 1, "content", "the walk went on after the callback asked to stop"); }
                else { CHECK(q == 0, "content", "a complete walk returned %d", q); CHECK(w.n == n, "content", "the walk visited %zu of %zu items", w.n, n); }
                if(w.modify) break;
                return R_OK;
            }
            case V_WRONG: {   // operations the type does not support
                if(!pick(r, -1, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); const VALUE* kb[2]; HBuf k("key" + std::string(1, 0));
                if(x->type != VALUE_ARRAY) { CHECK(value_array_size(v) == 0 && !value_array_get(v, 0) && !value_array_get_all(v) && !value_array_append(v) && !value_array_insert(v, 0) && value_array_remove(v, 0) == -1 && value_array_remove_range(v, 0, 0) == -1, "content", "array operation on a %s value succeeded", tname[x->type]); value_array_clean(v); }
                if(x->type != VALUE_DICT) {
                    CHECK(value_dict_size(v) == 0 && !value_dict_get(v, k.c()) && !value_dict_add(v, k.c()) && !value_dict_get_or_add(v, k.c()) && value_dict_remove(v, k.c()) == -1 && value_dict_keys_sorted(v, kb, 2) == 0 && value_dict_keys_ordered(v, kb, 2) == 0 && value_dict_flags(v) == 0, "content", "dictionary operation on a %s value succeeded", tname[x->type]);
                    WalkCtx w; CHECK(value_dict_walk_sorted(v, visit, &w) == -1 && value_dict_walk_ordered(v, visit, &w) == -1, "content", "walk over a %s value", tname[x->type]); value_dict_clean(v);
                }
                CHECK(value_is_compatible(v, (VALUE_TYPE) x->type), "content", "a %s value is not compatible with its own type", tname[x->type]);
                if(x->type != VALUE_BOOL) CHECK(value_bool(v) == -1, "content", "a truth value is read from a %s value", tname[x->type]);
                if(x->type == VALUE_NULL || x->type == VALUE_BOOL || x->type == VALUE_STRING || x->type == VALUE_ARRAY || x->type == VALUE_DICT) { value_int32(v); value_uint32(v); value_int64(v); value_uint64(v); value_float(v); value_double(v); for(int t = VALUE_INT32; t <= VALUE_DOUBLE; t++) CHECK(!value_is_compatible(v, (VALUE_TYPE) t), "content", "a %s value is reported as compatible with a number", tname[x->type]); }
                if(op.salt & 64) {    // what a lookup which found nothing leads to
                    VALUE* z = (op.salt & 256) ? value_path(v, "no/such/[7]/value") : nullptr; CHECK(!z, "content", "a path which does not exist is found");
                    WalkCtx w; CHECK(value_type(z) == VALUE_NULL && !value_is_new(z) && value_bool(z) == -1 && !value_string(z) && value_string_length(z) == 0, "content", "a missing value has content");
                    value_int32(z); value_uint32(z); value_int64(z); value_uint64(z); value_float(z); value_double(z);
                    CHECK(value_array_size(z) == 0 && !value_array_get(z, 0) && !value_array_get_all(z) && !value_array_append(z) && !value_array_insert(z, 0) && value_array_remove(z, 0) == -1 && value_array_remove_range(z, 0, 0) == -1, "content", "array operation on a missing value succeeded");
                    CHECK(value_dict_size(z) == 0 && !value_dict_get(z, k.c()) && !value_dict_add(z, k.c()) && !value_dict_get_or_add(z, k.c()) && value_dict_remove(z, k.c()) == -1 && value_dict_keys_sorted(z, kb, 2) == 0 && value_dict_keys_ordered(z, kb, 2) == 0 && value_dict_flags(z) == 0 && value_dict_walk_sorted(z, visit, &w) == -1 && value_dict_walk_ordered(z, visit, &w) == -1, "content", "dictionary operation on a missing value succeeded");
                    CHECK(value_init_bool(z, 1) == -1 && value_init_int32(z, 1) == -1 && value_init_uint32(z, 1) == -1 && value_init_int64(z, 1) == -1 && value_init_uint64(z, 1) == -1 && value_init_float(z, 1) == -1 && value_init_double(z, 1) == -1 && value_init_string(z, "x") == -1 && value_init_array(z) == -1 && value_init_dict(z) == -1, "content", "a missing value was given content");
                    value_init_null(z); value_array_clean(z); value_dict_clean(z); value_fini(z);
                }
                if(x->type != VALUE_STRING) CHECK(value_string(v) == nullptr && value_string_length(v) == 0, "content", "string read from a %s value", tname[x->type]);
                break;
            }
            case V_FINIROOT: { value_fini(root[r]); m[r]->null(); verify(r, "after value_fini()"); if(!init(root[r], m[r], (op.salt & 512) ? VALUE_DICT : VALUE_ARRAY, op.salt >> 12, 0)) { res = R_FAULTED; } break; }
            case V_BULKADD: {
                if(!pick(r, VALUE_DICT, op.a[1], p, x) && !pick(r = 1 - r, VALUE_DICT, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); u64 s = op.salt; i64 U = plan->cfg[C_P2]; if(U < 1) U = 1;
                for(i64 i = 0; i < 60 && i < U; i++) { u64 kk = (op.salt & 16) ? (u64) (op.a[2] + i) % U : (op.salt & 32) ? (u64) (op.a[2] + U - i % U) % U : (s = mix2(s, i)) % U; if(add(v, x, keyof(kk, plan->cfg[C_P1]), i & 1, mix2(op.salt, i), VALUE_INT32, 0, false) == R_FAULTED) { res = R_FAULTED; if(op.salt & 128) break; } }
                break;
            }
            case V_BULKREM: {
                if(!pick(r, VALUE_DICT, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p); size_t keep = idx(op.a[5], x->d->size() + 1); u64 s = op.salt;
                while(x->d->size() > keep) { auto it = x->d->begin(); s = mix2(s, 3); switch((op.salt >> 20) % 3) { case 0: break; case 1: it = --x->d->end(); break; default: std::advance(it, s % x->d->size()); } std::string k = it->first; dremove(v, x, k, s); }
                break;
            }
            case V_BULKAPP: {
                if(!pick(r, VALUE_ARRAY, op.a[1], p, x) && !pick(r = 1 - r, VALUE_ARRAY, op.a[1], p, x)) break;
                VALUE* v = resolve(r, p);
                for(int i = 0; i < 1 + (int) (op.salt % 40); i++) {
                    int nf0 = opctx().nfailed; VALUE* y = value_array_append(v);
                    if(!y) { CHECK(opctx().nfailed > nf0, "spurious-fail", "append failed although no allocation failed"); res = R_FAULTED; break; }
                    MV* nv = new MV; nv->fresh(); x->arr.push_back(nv);
                    if(!init(y, nv, (i & 3) == 3 ? VALUE_STRING : VALUE_UINT32, mix2(op.salt, i), op.a[4] % 200)) res = R_FAULTED;
                }
                break;
            }
            default: verify(r, "on reading"); return R_OK;
        }
        if(full) verify(r, "after the operation");
        return res;
    }
    void start_again() { for(int i = 0; i < 2; i++) { NoFaults nf; if(value_init_dict(root[i]) == 0) m[i]->mkdict(0, false); } }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"set a value", "array append", "array insert", "array remove", "array remove_range", "array clean", "dict add", "dict get_or_add", "dict remove", "dict clean", "dict get", "dict keys", "dict walk", "verify", "wrong-type operations", "fini root", "dict bulk add", "dict bulk remove", "array bulk append", "dict add twice"};
        char b[200]; snprintf(b, sizeof b, "value root=%zu %s sel=%lld key=%lld type=%s size=%lld n=%lld", idx(op.a[0], 2), nm[op.code % V_N], (long long) op.a[1], (long long) op.a[2], tname[idx(op.a[3], 11)], (long long) op.a[4], (long long) op.a[5]); return b;
    }
};

// -------------------------------------------------------------------- paths
struct PathMachine : ValBase {
    enum { P_GET, P_BUILD, P_BUILDSET, P_BAD, P_DIRECT, P_VERIFY, P_N };
    struct Tok { int kind; std::string k; u64 i; std::string text; };    // kind 0 key, 1 index, 2 negative, 3 append, 4 unusable
    struct Mut { int what; std::string k; };
    void gen_cfg(Rng& g, Plan& p) override { p.cfg[C_P0] = (i64) g.range(3, 9); p.cfg[C_P1] = (i64) g.range(1, 6); }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[P_N] = {20, 30, 34, 8, 6, 4}; int tot = 0; for(int w : wt) tot += w;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), c = 0; while(r >= wt[c]) r -= wt[c++];
            o.code = c; o.a[0] = g.chance(6, 7) ? 0 : 1; o.a[1] = (i64) (g.next() >> 1); o.a[2] = (i64) g.range(0, p.cfg[C_P1]); o.a[3] = (i64) g.below(11); o.a[4] = gsize(g, 0); o.a[5] = (i64) g.below(20);
            o.salt = g.next(); o.fail = (c == P_GET || c == P_VERIFY) ? 0 : gen_fail(g, heavy); p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == P_GET || op.code == P_VERIFY; }
    void start() override {
        ValBase::start();
        for(int i = 0; i < 2; i++) {
            // A root may be a container already, or a value nobody has initialised yet (inside an array).
            if(plan->cfg[C_SALT] & (1 << i)) { int r = value_init_dict_ex(root[i], nullptr, i ? VALUE_DICT_MAINTAINORDER : 0); CHECK(r == 0, "spurious-fail", "dictionary initialisation failed"); m[i]->mkdict(0, i != 0); }
            else { int r = value_init_array(root[i]); CHECK(r == 0, "spurious-fail", "array initialisation failed"); m[i]->mkarr(); }
        }
    }
    // Renders a path which mostly leads somewhere in the current tree.
    std::vector<Tok> gen_path(int r, const Op& op, std::string& text, bool bad) {
        Rng g((u64) op.a[1]); std::vector<Tok> t; const MV* cur = m[r]; i64 K = plan->cfg[C_P0] < 1 ? 1 : plan->cfg[C_P0];
        for(i64 i = 0; i < op.a[2]; i++) {
            Tok k; int sh = cur ? (cur->type == VALUE_ARRAY ? 1 : cur->type == VALUE_DICT ? 0 : (int) g.below(2)) : (int) g.below(2);
            if(g.chance(1, 14)) sh = 1 - sh;
            if(sh == 0) {
                k.kind = 0; static const char* names[] = {"a", "foo", "b", "bar", "name-with-16-byt", "x1", "4", "-1", "+", "a.b", "\xc3\xa9", " "};
                k.k = names[g.below((u64) std::min<i64>(K + 3, 12))]; if(g.chance(1, 30)) k.k = std::string(130, 'q') + k.k; k.text = k.k; k.i = 0;
                if(cur && cur->type == VALUE_DICT) { auto it = cur->d->find(k.k); cur = it == cur->d->end() ? nullptr : it->second.v; } else cur = nullptr;
            } else {
                size_t n = cur && cur->type == VALUE_ARRAY ? cur->arr.size() : 0;
                u64 w = g.below(10); char b[80];
                if(w < 3) { k.kind = 3; k.i = 0; k.text = "[]"; cur = nullptr; }
                else if(w < 5) { k.kind = 2; k.i = 1 + g.below(n + 2); snprintf(b, sizeof b, "[-%llu]", (unsigned long long) k.i); k.text = b; cur = k.i <= n && n ? cur->arr[n - k.i] : nullptr; }
                else {
                    k.kind = 1; k.i = g.below(n + 1 + (g.chance(1, 4) ? 2 : 0)); if(g.chance(1, 10)) k.i = 10 + g.below(20);
                    static const char* f[] = {"[%llu]", "[+%llu]", "[0%llu]", "[%llu]"}; snprintf(b, sizeof b, f[g.below(4)], (unsigned long long) k.i); k.text = b; cur = k.i < n ? cur->arr[k.i] : nullptr;
                }
            }
            t.push_back(k);
        }
        if(bad) {
            Tok k; k.i = 0; k.kind = 4;
            static const char* bt[] = {"[x]", "[1x]", "[-]", "[+]", "[1 ]", "[ 1]", "[0x1]", "[1-]", "[--1]", "[+-1]", "[1]]", "[0]x]", "[-1]]", "[0.]", "[:]", "[12a]", "[-0]", "[99999999999999999999999999]", "[340282366920938463463374607431768211456]", "[0]]]"};
            if(op.salt & 8) k.text = bt[(u64) op.a[5] % 20];
            else {      // far too large, but what is left after wrapping around would be in range
                unsigned __int128 one = 1, v; Rng q(op.salt >> 7);
                static const int bits[] = {15, 16, 31, 32, 33, 48, 63, 64, 65, 66, 80};
                int bb = bits[q.below(11)]; v = (one << bb) * (q.chance(1, 3) ? 1 + q.below(9) : 1);
                v = q.chance(1, 4) ? v - 1 - q.below(3) : v + q.below(5);
                std::string ds; while(v) { ds.insert(ds.begin(), (char) ('0' + (int) (v % 10))); v /= 10; }
                if(q.chance(1, 4)) ds.insert(0, 1 + q.below(20), '0');
                static const char* sg[] = {"", "", "+", "-", "-"};
                k.text = std::string("[") + sg[q.below(5)] + ds + "]";
            }
            t.insert(t.begin() + idx((i64) (op.salt >> 8), t.size() + 1), k);
        }
        for(size_t i = 0; i < t.size(); i++) {
            bool br = t[i].kind != 0;
            if(i == 0) { if(g.chance(1, 5)) text += g.chance(1, 3) ? "//" : "/"; }
            else if(!br || g.chance(1, 2)) text += g.chance(1, 8) ? "//" : "/";
            text += t[i].text;
        }
        if(g.chance(1, 8)) text += "/";
        return t;
    }
    MV* get(MV* v, const std::vector<Tok>& t) {
        for(auto& k : t) {
            if(k.kind == 0) { if(v->type != VALUE_DICT) return nullptr; auto it = v->d->find(k.k); if(it == v->d->end()) return nullptr; v = it->second.v; }
            else { if(v->type != VALUE_ARRAY) return nullptr; size_t n = v->arr.size(); if(k.kind == 1 && k.i < n) v = v->arr[k.i]; else if(k.kind == 2 && k.i && k.i <= n) v = v->arr[n - k.i]; else return nullptr; }
        }
        return v;
    }
    VALUE* call(int r, const std::string& text, bool build) { HBuf h(text + std::string(1, 0)); return build ? value_build_path(root[r], h.c()) : value_path(root[r], h.c()); }
    int build(int r, const std::vector<Tok>& t, const std::string& text, bool& ok, MV*& at, VALUE*& got) {
        int nf0 = opctx().nfailed; bool doomed = would_fail(m[r], t);
        got = call(r, text, true); ok = got != nullptr;
        bool failed = opctx().nfailed > nf0;
        log_result(ok);
        CHECK(ok || failed || doomed, "spurious-fail", "value_build_path(\"%s\") failed although no allocation failed and the path can be built", text.c_str());
        CHECK(!ok || !doomed, "content", "value_build_path(\"%s\") returned a value although the path cannot be resolved", text.c_str());
        // The reference walks the path itself, changing the model one step at a
        // time; a call that fails must leave the tree at one of these steps.
        MV* v = m[r]; bool reach = true; bool matched = false;
        auto same = [&]() { if(!ok && !matched && diff(root[r], m[r], false).empty()) matched = true; return matched && !ok; };
        at = nullptr;
        if(same()) return failed ? R_FAULTED : R_OK;
        for(auto& k : t) {
            if(k.kind == 4) {
                if(v->isnew) { v->mkarr(); if(same()) return failed ? R_FAULTED : R_OK; }
                reach = false; break;
            }
            if(k.kind == 0) {
                if(v->isnew) { v->mkdict(0, false); if(same()) return failed ? R_FAULTED : R_OK; }
                if(v->type != VALUE_DICT) { reach = false; break; }
                auto it = v->d->find(k.k);
                if(it == v->d->end()) { MV* n = new MV; n->fresh(); (*v->d)[k.k] = Ent{n, v->seq++}; v = n; if(same()) return failed ? R_FAULTED : R_OK; } else v = it->second.v;
            } else {
                if(v->isnew) { v->mkarr(); if(same()) return failed ? R_FAULTED : R_OK; }
                if(v->type != VALUE_ARRAY) { reach = false; break; }
                size_t n = v->arr.size();
                if(k.kind == 3) { MV* y = new MV; y->fresh(); v->arr.push_back(y); v = y; if(same()) return failed ? R_FAULTED : R_OK; }
                else if(k.kind == 1 && k.i < n) v = v->arr[k.i];
                else if(k.kind == 2 && k.i && k.i <= n) v = v->arr[n - k.i];
                else { reach = false; break; }
            }
        }
        if(!ok) {
            if(!reach) { std::string d = diff(root[r], m[r], false); violate("content", "after value_build_path(\"%s\") returned NULL the tree is not at any step of the path: %s", text.c_str(), d.c_str()); }
            std::string d = diff(root[r], m[r], false);
            violate("content", "a failed value_build_path(\"%s\") leaves the tree in a state which is no step of the path: %s", text.c_str(), d.c_str());
        }
        CHECK(reach, "content", "value_build_path(\"%s\") returned a value although the path cannot be resolved", text.c_str());
        at = v;
        return R_OK;
    }
    // Whether the path cannot be built whatever memory there is.
    bool would_fail(const MV* v, const std::vector<Tok>& t) {
        for(auto& k : t) {
            if(k.kind == 4) return true;
            if(!v) { if(k.kind == 0 || k.kind == 3) continue; return true; }
            if(v->isnew) { if(k.kind == 0 || k.kind == 3) { v = nullptr; continue; } return true; }
            if(k.kind == 0) { if(v->type != VALUE_DICT) return true; auto it = v->d->find(k.k); v = it == v->d->end() ? nullptr : it->second.v; }
            else {
                if(v->type != VALUE_ARRAY) return true;
                size_t n = v->arr.size();
                if(k.kind == 3) v = nullptr; else if(k.kind == 1 && k.i < n) v = v->arr[k.i]; else if(k.kind == 2 && k.i && k.i <= n) v = v->arr[n - k.i]; else return true;
            }
        }
        return false;
    }
    int exec(const Op& op) override {
        int r = (int) idx(op.a[0], 2); int res = R_OK;
        if(m[r]->count() > 700) { value_fini(root[r]); m[r]->null(); NoFaults nf; if(value_init_dict(root[r]) == 0) m[r]->mkdict(0, false); else m[r]->either = true; }
        switch(op.code) {
            case P_GET: case P_BAD: {
                std::string text; auto t = gen_path(r, op, text, op.code == P_BAD);
                bool bld = op.code == P_BAD && (op.salt & 4);
                if(bld) { bool ok; MV* at; VALUE* got; res = build(r, t, text, ok, at, got); CHECK(!ok, "content", "value_build_path(\"%s\") accepted an unusable index", text.c_str()); break; }
                VALUE* v = call(r, text, false); bool unusable = false; for(auto& k : t) unusable |= k.kind == 4;
                MV* x = unusable ? nullptr : get(m[r], t);
                log_result(v != nullptr);
                CHECK((v != nullptr) == (x != nullptr), "content", "value_path(\"%s\") %s", text.c_str(), v ? "found a value which is not there" : "missed an existing value");
                if(v) { std::string d = diff(v, x, true); CHECK(d.empty(), "content", "value_path(\"%s\"): %s", text.c_str(), d.c_str()); }
                if(op.code == P_GET) return R_OK;
                break;
            }
            case P_BUILD: case P_BUILDSET: {
                std::string text; auto t = gen_path(r, op, text, false); bool ok; MV* at; VALUE* got;
                res = build(r, t, text, ok, at, got);
                if(!ok && res == R_FAULTED && (op.salt & 3)) {
                    // memory is back: the same call has to work now
                    u32 keep = opctx().failmask; opctx().failmask = 0; bool can = !would_fail(m[r], t);
                    if(plan->cfg[C_QUOTA] == 0) { build(r, t, text, ok, at, got); CHECK(ok || !can, "content", "value_build_path(\"%s\") keeps failing after memory became available", text.c_str()); }
                    opctx().failmask = keep; note_fault("retry after failed build");
                }
                if(!ok) break;
                std::string d = diff(got, at, true); CHECK(d.empty(), "content", "value_build_path(\"%s\"): %s", text.c_str(), d.c_str());
                if(op.code == P_BUILDSET && at->type != VALUE_ARRAY && at->type != VALUE_DICT) {
                    if(!at->isnew) { value_fini(got); at->null(); }
                    int ty = (int) idx(op.a[3], 11);
                    if(!init(got, at, ty, (op.salt >> 12) & ~7ull, op.a[4] % 200)) { res = R_FAULTED; resync(got, at); }
                }
                break;
            }
            case P_DIRECT: {   // change the tree by other means between path calls
                std::vector<std::pair<Path, MV*>> c; Path cur; collect(m[r], -1, cur, c, 200); size_t k = idx(op.a[1], c.size()); if(c[k].first.empty()) break;
                VALUE* v = resolve(r, c[k].first); value_fini(v); c[k].second->null(); break;
            }
            default: verify(r, "on reading"); return R_OK;
        }
        verify(r, "after the operation");
        return res;
    }
    // After a failed initialisation either flag is fine: take over what is there.
    void resync(VALUE* v, MV* x) { if(x->either) { x->isnew = value_is_new(v) != 0; x->either = false; } }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"value_path", "value_build_path", "value_build_path and set", "unusable path", "reset a value directly", "verify"};
        char b[160]; snprintf(b, sizeof b, "root=%zu %s path-seed=%lld depth=%lld type=%s", idx(op.a[0], 2), nm[op.code % P_N], (long long) op.a[1], (long long) op.a[2], tname[idx(op.a[3], 11)]); std::string s = b;
        if(op.code < P_DIRECT) { std::string t; gen_path((int) idx(op.a[0], 2), op, t, op.code == P_BAD); s += " \"" + t + "\""; }
        return s;
    }
};
}
Machine* make_value() { return new ValMachine(false); }
Machine* make_dict() { return new ValMachine(true); }
Machine* make_path() { return new PathMachine; }
