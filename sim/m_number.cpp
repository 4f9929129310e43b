// Numbers kept in VALUEs: a registry of readings which are stored, migrated
// between numeric types, moved around, damaged, and recovered from a journal.
#include "util.h"
#include "data/value.h"
#include <cmath>
#include <cfloat>
#include <climits>

namespace {
typedef __int128 i128;
static const char* tn[] = {"NULL", "BOOL", "INT32", "UINT32", "INT64", "UINT64", "FLOAT", "DOUBLE", "STRING", "ARRAY", "DICT"};
static float f_of(u64 b) { u32 x = (u32) b; float f; memcpy(&f, &x, 4); return f; }
static double d_of(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static u64 b_of(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static u64 b_of(double d) { u64 x; memcpy(&x, &d, 8); return x; }

// A stored number as the reference sees it: an integer, or mantissa * 2^exp.
struct Num { int type; u64 bits; };
static bool is_int(int t) { return t >= VALUE_INT32 && t <= VALUE_UINT64; }
static i128 as_int(const Num& n) {
    switch(n.type) { case VALUE_INT32: return (int32_t) n.bits; case VALUE_UINT32: return (u32) n.bits; case VALUE_INT64: return (i64) n.bits; default: return n.bits; }
}
static void limits(int t, i128& lo, i128& hi) {
    switch(t) { case VALUE_INT32: lo = INT32_MIN; hi = INT32_MAX; break; case VALUE_UINT32: lo = 0; hi = UINT32_MAX; break; case VALUE_INT64: lo = INT64_MIN; hi = INT64_MAX; break; default: lo = 0; hi = UINT64_MAX; }
}
// Splits a floating point number; false for NaN and infinities.
static bool split(const Num& n, bool& neg, u64& man, int& exp) {
    if(n.type == VALUE_FLOAT) { u32 b = (u32) n.bits; neg = b >> 31; int e = (b >> 23) & 255; man = b & 0x7fffff; if(e == 255) return false; if(e) man |= 0x800000; else e = 1; exp = e - 150; }
    else { u64 b = n.bits; neg = b >> 63; int e = (int) ((b >> 52) & 2047); man = b & 0xfffffffffffffull; if(e == 2047) return false; if(e) man |= 1ull << 52; else e = 1; exp = e - 1075; }
    return true;
}
// The nearest integer, halves away from zero; integral tells whether nothing was rounded.
static bool nearest(const Num& n, i128& r, bool& integral) {
    bool neg; u64 man; int e; if(!split(n, neg, man, e)) return false;
    integral = true;
    if(man == 0) r = 0;
    else if(e >= 0) { if(e > 66) return false; r = (i128) man << e; }
    else {
        int s = -e; if(s > 60) { r = 0; integral = false; }
        else { r = (i128) (man >> s); u64 rest = man & ((1ull << s) - 1); integral = rest == 0; if(rest >= 1ull << (s - 1)) r += 1; }
    }
    if(neg) r = -r;
    return true;
}
static std::string show(const Num& n) {
    char b[100];
    if(n.type == VALUE_FLOAT) snprintf(b, sizeof b, "FLOAT %.9g (%a)", (double) f_of(n.bits), (double) f_of(n.bits));
    else if(n.type == VALUE_DOUBLE) snprintf(b, sizeof b, "DOUBLE %.17g (%a)", d_of(n.bits), d_of(n.bits));
    else if(n.type == VALUE_UINT64) snprintf(b, sizeof b, "UINT64 %llu", (unsigned long long) n.bits);
    else snprintf(b, sizeof b, "%s %lld", tn[n.type], (long long) as_int(n));
    return b;
}
// The number is exact in long double: 64 bits of mantissa hold every type.
static long double exact(const Num& n) { return n.type == VALUE_FLOAT ? (long double) f_of(n.bits) : n.type == VALUE_DOUBLE ? (long double) d_of(n.bits) : (long double) as_int(n); }

struct NumMachine : Machine {
    enum { N_PUT, N_READ, N_QUERY, N_MIGRATE, N_DAMAGE, N_CRASH, N_MOVE, N_SWEEP, N_N };
    enum { MAXN = 40 };
    VALUE* root = nullptr; std::vector<Num> m;
    static u64 gen_bits(Rng& g, int type, i64 prof) {
        i128 v = 0; u64 c = prof == 0 ? g.below(6) : g.below(5);
        switch(c) {
            case 0: v = g.range(-5, 300); break;
            case 1: { v = (i128) 1 << g.below(65); v += g.range(-3, 3); if(g.chance(1, 2)) v = -v; break; }
            case 2: { static const int ty[] = {VALUE_INT32, VALUE_UINT32, VALUE_INT64, VALUE_UINT64}; i128 lo, hi; limits(ty[g.below(4)], lo, hi); v = (g.chance(1, 2) ? lo : hi) + g.range(-2, 2); break; }
            case 3: v = (i64) (g.next() >> g.below(64)); if(g.chance(1, 2)) v = -v; break;
            case 4: v = (i64) g.next(); break;
            default: v = (i64) (g.next() % 2000000) - 1000000; break;
        }
        if(is_int(type)) return type == VALUE_INT32 ? (u64) (i64) (int32_t) v : type == VALUE_UINT32 ? (u32) v : (u64) v;
        if(type == VALUE_FLOAT) {
            float f;
            switch(g.below(8)) {
                default: f = (float) v; break;
                case 2: f = (float) g.range(-1000, 1000) + 0.5f; break;
                case 3: f = (float) ((1 << g.range(20, 25)) + g.range(-2000, 2000)) + (float) g.range(-1, 1) * 0.5f; break;
                case 4: f = std::ldexp(1.0f + (float) g.below(1 << 23) / (1 << 23), (int) g.range(-3, 66)); break;
                case 5: return (u32) g.next();
                case 6: { static const float s[] = {0.0f, -0.0f, 0.5f, -0.5f, NAN, INFINITY, -INFINITY, FLT_MAX, -FLT_MAX, FLT_MIN, 1e-45f, 2147483648.0f, 4294967296.0f, 9223372036854775808.0f, 18446744073709551616.0f, 16777216.0f, 8388609.0f, 0.49999997f}; f = s[g.below(18)]; break; }
            }
            if(g.chance(1, 4)) f = std::nextafter(f, g.chance(1, 2) ? INFINITY : -INFINITY);
            if(g.chance(1, 4)) f = -f;
            return b_of(f);
        }
        double d;
        switch(g.below(8)) {
            default: d = (double) v; break;
            case 2: d = (double) g.range(-100000, 100000) + 0.5; break;
            case 3: d = (double) ((1ll << g.range(28, 54)) + g.range(-2000, 2000)) + (double) g.range(-1, 1) * 0.5; break;
            case 4: d = std::ldexp(1.0 + (double) (g.next() >> 12) / 4503599627370496.0, (int) g.range(-3, 66)); break;
            case 5: return g.next();
            case 6: { static const double s[] = {0.0, -0.0, 0.5, -0.5, NAN, INFINITY, -INFINITY, DBL_MAX, -DBL_MAX, DBL_MIN, 5e-324, 2147483647.5, 4294967295.5, 9223372036854775808.0, 18446744073709551616.0, 9007199254740993.0, 4503599627370497.0, 0.49999999999999994, -2147483648.5, (double) FLT_MAX, 3.4028235677973366e38, 1e39}; d = s[g.below(22)]; break; }
        }
        if(g.chance(1, 4)) d = std::nextafter(d, g.chance(1, 2) ? INFINITY : -INFINITY);
        if(g.chance(1, 4)) d = -d;
        return b_of(d);
    }
    void gen_cfg(Rng& g, Plan& p) override { p.cfg[C_P0] = (i64) g.below(2); p.cfg[C_P1] = 1 + (i64) g.below(MAXN); p.cfg[C_P2] = (i64) g.below(9); }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[N_N] = {40, 10, 10, 14, 8, 1, 6, 5}; int tot = 0; for(int w : wt) tot += w;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), k = 0; while(r >= wt[k]) r -= wt[k++];
            o.code = k; o.a[0] = (i64) g.below((u64) p.cfg[C_P1]);
            int focus = (int) p.cfg[C_P2];      // one type only, or a mixture
            o.a[1] = focus < 6 && g.chance(3, 4) ? 2 + focus : 2 + (i64) g.below(6);
            o.a[2] = (i64) gen_bits(g, (int) o.a[1], p.cfg[C_P0]);
            o.a[3] = (i64) g.below(64); o.a[4] = (i64) g.below((u64) p.cfg[C_P1]);
            o.salt = g.next(); o.fail = is_reader(o) ? 0 : gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == N_READ || op.code == N_QUERY || op.code == N_SWEEP; }
    void start() override { root = (VALUE*) h_alloc(sizeof(VALUE)); memset(root, 0x5a, sizeof(VALUE)); CHECK(value_init_array(root) == 0, "spurious-fail", "array initialisation failed"); }
    void finish() override { sweep(); value_fini(root); h_free(root); }
    static int put(VALUE* v, const Num& n) {
        switch(n.type) {
            case VALUE_INT32: return value_init_int32(v, (int32_t) n.bits); case VALUE_UINT32: return value_init_uint32(v, (u32) n.bits);
            case VALUE_INT64: return value_init_int64(v, (i64) n.bits); case VALUE_UINT64: return value_init_uint64(v, n.bits);
            case VALUE_FLOAT: return value_init_float(v, f_of(n.bits)); default: return value_init_double(v, d_of(n.bits));
        }
    }
    static u64 read(const VALUE* v, int type) {
        switch(type) {
            case VALUE_INT32: return (u64) (i64) value_int32(v); case VALUE_UINT32: return value_uint32(v); case VALUE_INT64: return (u64) value_int64(v);
            case VALUE_UINT64: return value_uint64(v); case VALUE_FLOAT: return b_of(value_float(v)); default: return b_of(value_double(v));
        }
    }
    void check_read(const VALUE* v, const Num& n, int type) {
        Num g{type, read(v, type)};
        std::string ctx = show(n);
        bool neg; u64 man; int e;
        if(is_int(type)) {
            i128 want; bool whole = true;
            if(is_int(n.type)) want = as_int(n); else if(!nearest(n, want, whole)) return;
            i128 lo, hi; limits(type, lo, hi); if(want < lo || want > hi) return;
            log_result(g.bits);
            CHECK(as_int(g) == want, "content", "%s read as %s gives %s", ctx.c_str(), tn[type], show(g).c_str());
            return;
        }
        bool fin = is_int(n.type) || split(n, neg, man, e), nan = !fin && std::isnan(exact(n));
        if(nan) { CHECK(std::isnan(exact(g)), "content", "NaN read as %s gives %s", tn[type], show(g).c_str()); return; }
        if(n.type == type) { log_result(g.bits); CHECK(g.bits == n.bits, "content", "%s read back gives %s", ctx.c_str(), show(g).c_str()); return; }
        if(n.type == VALUE_DOUBLE && (!fin || fabs(d_of(n.bits)) > FLT_MAX)) return;      // does not fit into a float
        log_result(g.bits);
        long double x = exact(n), y = exact(g);
        if(x == y) return;
        CHECK(!std::isinf(y) && !std::isnan(y), "content", "%s read as %s gives %s", ctx.c_str(), tn[type], show(g).c_str());
        long double up, dn;
        if(type == VALUE_FLOAT) { up = std::nextafter(f_of(g.bits), INFINITY); dn = std::nextafter(f_of(g.bits), -INFINITY); } else { up = std::nextafter(d_of(g.bits), INFINITY); dn = std::nextafter(d_of(g.bits), -INFINITY); }
        // the nearest number of that type, and nothing lost if the number exists there
        CHECK(fabsl(x - y) <= fabsl(x - up) && fabsl(x - y) <= fabsl(x - dn), "content", "%s read as %s gives %s, which is not the nearest one", ctx.c_str(), tn[type], show(g).c_str());
    }
    // 1 yes, 0 no, -1 either answer is fine
    static int want_compat(const Num& n, int type) {
        if(n.type == type) return 1;
        if(type < VALUE_INT32 || type > VALUE_DOUBLE) return 0;
        if(!is_int(type)) {
            if(n.type == VALUE_DOUBLE) { double d = d_of(n.bits); return std::isfinite(d) && fabs(d) <= FLT_MAX ? 1 : -1; }
            return 1;
        }
        i128 v, lo, hi; bool whole = true; limits(type, lo, hi);
        if(is_int(n.type)) v = as_int(n); else if(!nearest(n, v, whole)) return 0;
        return whole && v >= lo && v <= hi;
    }
    int check_compat(const VALUE* v, const Num& n, int type) {
        int c = value_is_compatible(v, (VALUE_TYPE) type) != 0, w = want_compat(n, type);
        log_result((u64) c + 2);
        CHECK(w < 0 || c == w, "content", "%s is reported as %scompatible with %s", show(n).c_str(), c ? "" : "in", tn[type]);
        return c;
    }
    VALUE* at(size_t i) { VALUE* v = value_array_get(root, i); CHECK(v != nullptr, "content", "a stored number is not found"); CHECK((int) value_type(v) == m[i].type, "content", "a number stored as %s has type %d", tn[m[i].type], (int) value_type(v)); return v; }
    void all(size_t i) { VALUE* v = at(i); for(int t = 0; t <= 10; t++) { check_compat(v, m[i], t); if(t >= VALUE_INT32 && t <= VALUE_DOUBLE) check_read(v, m[i], t); } }
    void sweep() { CHECK(value_array_size(root) == m.size(), "content", "%zu numbers are stored, expected %zu", value_array_size(root), m.size()); for(size_t i = 0; i < m.size(); i++) all(i); }
    int store(size_t i, const Num& n, u64 salt, bool front) {
        int nf0 = opctx().nfailed; VALUE* v;
        if(i < m.size()) { v = at(i); if(salt & 1) value_fini(v); }
        else {
            i = front ? 0 : m.size(); v = front ? value_array_insert(root, 0) : value_array_append(root);
            if(!v) { CHECK(opctx().nfailed > nf0, "spurious-fail", "storing one more number failed although no allocation failed"); return R_FAULTED; }
            m.insert(m.begin() + (long) i, n);
        }
        int r = put(v, n); CHECK(r == 0, "spurious-fail", "storing %s failed", show(n).c_str());
        m[i] = n; all(i); return R_OK;
    }
    int exec(const Op& op) override {
        size_t k = idx(op.a[0], MAXN); Num n{2 + (int) idx(op.a[1] - 2, 6), (u64) op.a[2]};
        if(n.type == VALUE_INT32) n.bits = (u64) (i64) (int32_t) n.bits; else if(n.type == VALUE_UINT32 || n.type == VALUE_FLOAT) n.bits = (u32) n.bits;
        if(m.empty() && is_reader(op)) return R_OK;
        if(op.code == N_PUT || m.empty()) return store(k, n, op.salt, op.salt & 2);
        if(k >= m.size()) k %= m.size();
        switch(op.code) {
            case N_READ: for(u64 i = 0; i < 6; i++) check_read(at(k), m[k], 2 + (int) ((i + op.salt) % 6)); return R_OK;
            case N_QUERY: for(u64 i = 0; i < 11; i++) check_compat(at(k), m[k], (int) ((i + op.salt) % 11)); return R_OK;
            case N_SWEEP: sweep(); return R_OK;
            case N_MIGRATE: {  // a consumer reads the number as another type if it may, stores that, and reads it back
                if(!check_compat(at(k), m[k], n.type) || n.type == m[k].type) return R_OK;
                if(want_compat(m[k], n.type) != 1) return R_OK;
                Num was = m[k], x{n.type, read(at(k), n.type)}; check_read(at(k), was, n.type);
                note_fault("number migrated to another type");
                size_t j = idx(op.a[4], MAXN); int r = store(j, x, op.salt, false);
                if(r == R_FAULTED) return r;
                if(j >= m.size()) j = m.size() - 1;
                // integers: nothing is lost on the way there and back
                if(is_int(n.type)) { Num back{was.type, read(at(j), was.type)}; CHECK(exact(back) == exact(was), "content", "%s stored as %s reads back as %s", show(was).c_str(), tn[n.type], show(back).c_str()); }
                return r;
            }
            case N_DAMAGE: { Num x = m[k]; int w = x.type == VALUE_FLOAT || x.type == VALUE_INT32 || x.type == VALUE_UINT32 ? 32 : 64; x.bits ^= 1ull << idx(op.a[3], w); if(x.type == VALUE_INT32) x.bits = (u64) (i64) (int32_t) x.bits; note_fault("stored number damaged by a bit flip"); return store(k, x, op.salt, false); }
            case N_CRASH: {    // everything in memory is gone; the journal (the model) is replayed
                note_fault("crash, registry rebuilt from the journal");
                value_fini(root); std::vector<Num> j; j.swap(m); NoFaults nf;
                CHECK(value_init_array(root) == 0, "spurious-fail", "array initialisation failed");
                for(auto& x : j) { VALUE* v = value_array_append(root); CHECK(v != nullptr && put(v, x) == 0, "spurious-fail", "recovery failed"); m.push_back(x); }
                sweep(); return R_OK;
            }
            case N_MOVE: {     // neighbours come and go, so the values move in memory
                if(op.salt & 4) { size_t c = 1 + (size_t) (op.salt >> 8) % 4; if(c > m.size() - k) c = m.size() - k; value_array_remove_range(root, k, c); m.erase(m.begin() + (long) k, m.begin() + (long) (k + c)); sweep(); return R_OK; }
                if(m.size() >= MAXN) return R_OK;
                int nf0 = opctx().nfailed; VALUE* v = value_array_insert(root, k);
                if(!v) { CHECK(opctx().nfailed > nf0, "spurious-fail", "inserting failed although no allocation failed"); sweep(); return R_FAULTED; }
                put(v, n); m.insert(m.begin() + (long) k, n); sweep(); return R_OK;
            }
        }
        return R_OK;
    }
    u64 state_hash() override { u64 h = 22; for(size_t i = 0; i < m.size() && i < 6; i++) { bool ng = false; u64 mn = m[i].bits; int e = 0; if(!is_int(m[i].type)) split(m[i], ng, mn, e); h = mix2(h, (u64) m[i].type * 4096 + (u64) (e + 1100) * 64 + (mn ? 64 - __builtin_clzll(mn) : 0)); } return mix2(h, m.size()); }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"store", "read", "query compatibility", "migrate", "damage", "crash and recover", "move", "check everything"};
        Num n{2 + (int) idx(op.a[1] - 2, 6), (u64) op.a[2]}; return std::string(nm[op.code % N_N]) + " slot " + std::to_string(idx(op.a[0], MAXN)) + " with " + show(n) + " bit " + std::to_string(op.a[3]);
    }
};
}
Machine* make_number() { return new NumMachine; }
