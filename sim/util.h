#pragma once
#include "core.h"
// Deterministic payload bytes.
static inline std::string payload(u64 salt, size_t n) {
    std::string s(n, 0);
    u64 v = mix2(salt, n);
    for(size_t i = 0; i < n; i++) { if((i & 7) == 0) v = v * 6364136223846793005ull + 1442695040888963407ull; s[i] = (char) (v >> ((i & 7) * 8)); }
    return s;
}
// Bytes with structure: what real files and messages look like (constant runs,
// long zero prefixes, sparse bits, repeated blocks, text), not just noise.
static inline std::string message(u64 salt, size_t n) {
    u64 k = mix2(salt, 77) % 12, v = mix2(salt, 78); std::string s;
    switch(k) {
        default: return payload(salt, n);
        case 4: { static const u8 c[8] = {0, 0, 0xff, 0xff, 0x80, 0x7f, 1, 0x55}; s.assign(n, (char) (v & 64 ? c[v & 7] : (v >> 8))); break; }
        case 5: case 6: {    // blank start, then noise (or the other way round)
            size_t z = (size_t) 1 << (v % 14); if(z > n) z = n; if(v & (1 << 20)) z = n - (n - z) / 2;
            s = payload(salt, n); size_t at = (v & (1 << 21)) ? n - z : 0; memset(&s[0] + at, v & (1 << 22) ? 0xff : 0, z); break; }
        case 7: s.assign(n, 0); if(n) for(u64 i = 0; i < 1 + (v >> 8) % 6; i++) s[(size_t) (mix2(v, i) % n)] ^= (char) (1 << (mix2(v, i + 50) & 7)); break;
        case 8: { std::string b = payload(v, 1 + (size_t) (v % 65)); while(s.size() < n) s += b; s.resize(n); break; }
        case 9: { s = payload(salt, n); for(auto& c : s) c = "abcdefghijklmnopqrstuvwxyz ABCDEFGH0123456789,.;:\n\t+/=-_{}[]\"\\"[(u8) c % 64]; break; }
        case 10: { u64 w = v; while(s.size() < n) { w = mix2(w, s.size()); s.append(1 + (size_t) (w % 70), (char) (w >> 32)); } s.resize(n); break; }
        case 11: { s = payload(salt, n); for(auto& c : s) c = (char) (c | 0x80); break; }
    }
    return s;
}
static inline u64 fnv(const void* p, size_t n, u64 h = 1469598103934665603ull) {
    const u8* b = (const u8*) p;
    for(size_t i = 0; i < n; i++) h = (h ^ b[i]) * 1099511628211ull;
    return h;
}
static inline u64 fnvs(const std::string& s) { return fnv(s.data(), s.size()); }
// Index in [0,n) out of an arbitrary plan argument; stays valid when a plan is shrunk.
static inline size_t idx(i64 a, size_t n) { return n ? (size_t) ((u64) a % n) : 0; }
// Allocation fault patterns for one op.
static inline u32 gen_fail(Rng& g, int heavy) {
    // heavy: 0 never, 1 sparse, 2 often, 3 outage-like
    static const u32 num[4] = {0, 6, 30, 60};
    if(!g.chance(num[heavy & 3], 100)) return 0;
    switch(g.below(6)) {
        case 0: return 0xffffffffu;                       // out of memory for the whole call
        case 1: return 1;
        case 2: return 2;
        case 3: return 1u << g.below(5);
        case 4: return (u32) g.next() & 0x1f;
        default: return 0xffffffffu << g.below(4);        // memory runs out in the middle
    }
}
static inline u64 huge_size(Rng& g) {
    switch(g.below(8)) {
        case 0: return ~0ull;
        case 1: return ~0ull - g.below(80);
        case 2: return ~0ull - g.below(5000);
        case 3: return (1ull << 63) + g.range(-64, 64);
        case 4: return (1ull << 62) + g.range(-64, 64);
        case 5: return (1ull << 32) + g.range(-64, 64);
        case 6: return ~0ull / (1 + g.below(9)) + g.range(-8, 8);
        default: return 1ull << (28 + g.below(36));
    }
}
// Interesting sizes around powers of two and around the library's rounding steps.
static inline size_t near_pow2(Rng& g, int lo, int hi) {
    size_t b = (size_t) 1 << g.range(lo, hi);
    i64 d[] = {-33, -32, -31, -17, -16, -9, -8, -7, -1, 0, 1, 7, 8, 9, 16, 31, 32, 33};
    i64 v = (i64) b + d[g.below(sizeof d / sizeof *d)];
    return v < 0 ? 0 : (size_t) v;
}
// Makes a caller-owned block of exactly n bytes (redzones on both sides).
struct HBuf {
    void* p; size_t n;
    explicit HBuf(size_t n_) : p(h_alloc(n_ ? n_ : 1)), n(n_) { if(!n) h_seal(p, 1); }
    HBuf(const std::string& s) : HBuf(s.size()) { if(n) memcpy(p, s.data(), n); }
    ~HBuf() { h_free(p); }
    char* c() { return (char*) p; }
    std::string str() { return std::string((char*) p, n); }
};
