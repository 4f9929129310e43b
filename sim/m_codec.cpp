// Base64 and hex over a damaging channel; CRC-32 records on a failing disk;
// FNV-1a of a stream read in pieces across crashes. The reference codecs below
// are written independently of the library.
#include "util.h"
#include "encode/base64.h"
#include "encode/hex.h"
#include "hash/crc32.h"
#include "hash/fnv1a.h"
#include <algorithm>

namespace {
// ------------------------------------------------------------ the channel
// Damages a message in transit; returns what kind of fault was applied.
enum { CH_NONE, CH_FLIP, CH_DROP, CH_DUP, CH_TRUNC, CH_INSERT, CH_SWAP, CH_SPLICE, CH_HIGH, CH_NEIGHBOUR, CH_EMPTY, CH_TAIL, CH_GARBAGE, CH_PADRUN, CH_CONCAT, CH_WRAP, CH_N };
static const char* ch_name[CH_N] = {"intact", "bit flip", "lost byte", "duplicated byte", "truncated message", "inserted byte", "reordered bytes", "spliced messages", "high bit set", "byte replaced by its neighbour code", "message lost", "damaged tail", "arbitrary bytes", "run of padding", "two messages joined", "line breaks inserted"};
static std::string damage(std::string w, int kind, i64 pos, u64 salt, const std::string& other, char pad) {
    size_t n = w.size(); size_t p = idx(pos, n ? n : 1);
    if(kind != CH_NONE) note_fault(ch_name[kind]);
    if(n == 0 && kind != CH_INSERT && kind != CH_GARBAGE && kind != CH_SPLICE && kind != CH_PADRUN && kind != CH_CONCAT) return w;
    switch(kind) {
        case CH_FLIP: w[p] ^= (char) (1 << (salt & 7)); if(salt & 256) w[idx((i64) (salt >> 9), n)] ^= (char) (1 << ((salt >> 40) & 7)); break;
        case CH_DROP: w.erase(p, 1); break;
        case CH_DUP: w.insert(p, 1, w[p]); break;
        case CH_TRUNC: w.resize(p); break;
        case CH_INSERT: w.insert(n ? p : 0, 1, (char) (salt & 0xff)); break;
        case CH_SWAP: std::swap(w[p], w[idx((i64) (salt & 0xffff), n)]); break;
        case CH_SPLICE: w = w.substr(0, p) + other.substr(std::min(other.size(), (size_t) idx((i64) (salt & 0xffff), other.size() + 1))); break;
        case CH_HIGH: w[p] |= (char) 0x80; break;
        case CH_NEIGHBOUR: w[p] = (char) (w[p] + (int) (salt % 5) - 2); break;
        case CH_EMPTY: w.clear(); break;
        case CH_TAIL: { size_t k = 1 + salt % 3; for(size_t i = 0; i < k && i < n; i++) w[n - 1 - i] = (char) mix2(salt, i); break; }
        case CH_GARBAGE: { size_t k = (size_t) (salt % 33); w = payload(salt, k); if(salt & (1 << 20)) for(auto& c : w) c = "0123456789abcdefghABCDEFGHzZ+/=-_ \n@`{["[(u8) c % 39]; break; }
        case CH_PADRUN: {
            static const size_t runs[8] = {1, 2, 3, 4, 4, 8, 5, 12}; std::string r(runs[salt & 7], pad);
            switch((salt >> 3) % 4) { case 0: case 1: w += r; break; case 2: w = r + w; break; default: w.insert(p, r); } break; }
        case CH_CONCAT: w = (salt & 1) ? w + other : (salt & 2) ? other + w : w + w; break;
        case CH_WRAP: {
            const char* nl = (salt & 1) ? "\n" : (salt & 2) ? "\r\n" : " ";
            if(salt & 4) w += nl; else { size_t k = 4 << ((salt >> 3) % 5); std::string r; for(size_t i = 0; i < n; i += k) { r += w.substr(i, k); if(i + k < n) r += nl; } w = r; } break; }
        default: break;
    }
    return w;
}

// ------------------------------------------------------------------ base64
struct Dialect { char c62, c63, pad; bool null; };
static Dialect dialect(i64 k, u64 salt) {
    switch(idx(k, 8)) {
        case 0: case 1: return {'+', '/', '=', true};
        case 2: return {'+', '/', '=', false};
        case 3: return {'-', '_', '\0', false};
        case 4: return {'-', '_', '=', false};
        case 5: return {'+', ',', '\0', false};
        case 6: return {(char) 0xa7, (char) 0xff, '=', false};
        default: {   // any pair of characters outside the core alphabet
            std::string pool; for(int c = 1; c < 256; c++) if(!isalnum(c)) pool += (char) c;
            Rng g(salt); char a = pool[g.below(pool.size())], b, p; do b = pool[g.below(pool.size())]; while(b == a);
            do p = g.chance(1, 3) ? '\0' : pool[g.below(pool.size())]; while(p && (p == a || p == b));
            return {a, b, p, false};
        }
    }
}
static std::string b64_alpha(const Dialect& d) { std::string a; for(char c = 'A'; c <= 'Z'; c++) a += c; for(char c = 'a'; c <= 'z'; c++) a += c; for(char c = '0'; c <= '9'; c++) a += c; a += d.c62; a += d.c63; return a; }
static std::string b64_ref_encode(const std::string& s, const Dialect& d) {
    std::string al = b64_alpha(d), o; size_t bits = s.size() * 8;
    for(size_t b = 0; b < bits; b += 6) { int v = 0; for(size_t k = b; k < b + 6; k++) v = v * 2 + (k < bits ? ((u8) s[k / 8] >> (7 - k % 8)) & 1 : 0); o += al[v]; }
    if(d.pad) while(o.size() % 4) o += d.pad;
    return o;
}
// 1 decoded, 0 must be refused
static int b64_ref_decode(const std::string& w, const Dialect& d, std::string& out) {
    std::string al = b64_alpha(d), body = w; out.clear();
    if(d.pad && !body.empty()) {
        if(body.size() % 4 == 0) { for(int k = 0; k < 2 && !body.empty() && body.back() == d.pad; k++) body.pop_back(); }
        else if(body.back() == d.pad) return 0;       // padding present but not to a multiple of four
    }
    std::vector<int> bits;
    for(char c : body) { size_t v = al.find(c); if(v == std::string::npos) return 0; for(int k = 5; k >= 0; k--) bits.push_back((int) (v >> k) & 1); }
    if(body.size() % 4 == 1) return 0;
    size_t n = bits.size() / 8;
    for(size_t k = n * 8; k < bits.size(); k++) if(bits[k]) return 0;
    for(size_t i = 0; i < n; i++) { int v = 0; for(int k = 0; k < 8; k++) v = v * 2 + bits[i * 8 + k]; out += (char) v; }
    return 1;
}

struct CodecMachine : Machine {
    int which;               // 0 base64, 1 hex
    explicit CodecMachine(int w) : which(w) {}
    enum { C_SEND, C_LEN, C_SMALL, C_DECODE_RAW, C_NOPS };
    std::string prev = "QUJD";
    void gen_ops(Rng& g, Plan& p, int task, int nops, int) override {
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task;
            o.code = g.chance(1, 12) ? C_LEN : g.chance(1, 10) ? C_SMALL : g.chance(1, 8) ? C_DECODE_RAW : C_SEND;
            switch(g.below(6)) { case 0: o.a[0] = (i64) g.below(400); break; case 1: o.a[0] = (i64) near_pow2(g, 3, 9); break; default: o.a[0] = (i64) g.below(14); }
            o.a[1] = (i64) g.below(8);
            o.a[2] = g.chance(1, 3) ? 0 : (i64) g.below(CH_N);
            o.a[3] = g.chance(1, 3) ? -1 - (i64) g.below(3) : (i64) (g.next() >> 1);
            o.a[4] = (i64) g.below(5);           // room beyond what is needed
            o.a[5] = (i64) g.below(2);           // hex: case
            o.salt = g.next();
            p.ops.push_back(o);
        }
    }
    Dialect d; BASE64_OPTIONS bo;
    const BASE64_OPTIONS* opt() { return d.null ? nullptr : &bo; }
    std::string ref_enc(const std::string& m, int lower) {
        if(which == 0) return b64_ref_encode(m, d);
        const char* x = lower ? "0123456789abcdef" : "0123456789ABCDEF"; std::string o;
        for(u8 c : m) { o += x[c / 16]; o += x[c % 16]; }
        return o;
    }
    int ref_dec(const std::string& w, std::string& out) {
        if(which == 0) return b64_ref_decode(w, d, out);
        out.clear(); if(w.size() % 2) return 0; int acc = 0;
        for(size_t i = 0; i < w.size(); i++) {
            int v; char c = w[i];
            if(c >= '0' && c <= '9') v = c - '0'; else if(c >= 'a' && c <= 'f') v = c - 'a' + 10; else if(c >= 'A' && c <= 'F') v = c - 'A' + 10; else return 0;
            acc = acc * 16 + v; if(i & 1) { out += (char) acc; acc = 0; }
        }
        return 1;
    }
    int enc(const void* in, unsigned n, char* out, unsigned on, int lower) { return which == 0 ? base64_encode(in, n, out, on, opt()) : hex_encode(in, n, out, on, lower); }
    int dec(const char* in, unsigned n, void* out, unsigned on) { return which == 0 ? base64_decode(in, n, out, on, opt()) : hex_decode(in, n, out, on); }
    std::string encode(const std::string& m, int lower, size_t room) {
        std::string e = ref_enc(m, lower); HBuf src(m);
        size_t cap = e.size() + room; HBuf out(cap); if(cap) memset(out.p, 0x7e, cap);
        int r = enc(src.p, (unsigned) m.size(), out.c(), (unsigned) cap, lower);
        CHECK(r == (int) e.size(), "result", "encoding %zu bytes returned %d, expected %zu", m.size(), r, e.size());
        CHECK(memcmp(out.p, e.data(), e.size()) == 0, "content", "encoding of %zu bytes is wrong", m.size());
        if(room) CHECK(out.c()[e.size()] == 0, "content", "encoded text is not terminated although there is room");
        for(size_t i = e.size() + 1; i < cap; i++) CHECK(out.c()[i] == 0x7e, "content", "encoder wrote past the terminator");
        CHECK(src.str() == m, "content", "encoder changed its input");
        return e;
    }
    void decode(const std::string& w, size_t room, const std::string* sent) {
        std::string e; int ok = ref_dec(w, e); HBuf in(w);
        size_t need = ok == 0 ? w.size() : e.size(); size_t cap = need + room; HBuf out(cap); if(cap) memset(out.p, 0x7e, cap);
        int r = dec(in.c(), (unsigned) w.size(), out.p, (unsigned) cap);
        if(ok == 0) CHECK(r < 0, "result", "a malformed message of %zu characters was accepted (%d)", w.size(), r);
        if(ok == 1) {
            CHECK(r == (int) e.size(), "result", "decoding %zu well-formed characters returned %d, expected %zu", w.size(), r, e.size());
            CHECK(memcmp(out.p, e.data(), e.size()) == 0, "content", "decoding %zu characters gave wrong bytes", w.size());
            for(size_t i = e.size(); i < cap; i++) CHECK(out.c()[i] == 0x7e, "content", "decoder wrote past the %zu bytes it reports", e.size());
            if(sent) CHECK(e == *sent, "content", "an intact message does not decode to what was sent");
            // a decoder without anywhere to write reports the size instead
            int q = dec(in.c(), (unsigned) w.size(), nullptr, 0);
            CHECK(q >= (int) e.size() && q <= (int) w.size(), "result", "size query for %zu characters gave %d, the message has %zu bytes", w.size(), q, e.size());
            if(!e.empty()) { HBuf small(e.size() - 1); int s = dec(in.c(), (unsigned) w.size(), small.p, (unsigned) e.size() - 1); CHECK(s < 0, "result", "decoding into a too small buffer returned %d", s); }
        }
        CHECK(in.str() == w, "content", "decoder changed its input");
        log_result((u64) (i64) r); if(r > 0) log_bytes(out.p, (size_t) r);
        last = mix2(last, (u64) (r + 1) * 4096 + w.size());
    }
    int exec(const Op& op) override {
        d = dialect(op.a[1], op.salt); bo.ch62 = d.c62; bo.ch63 = d.c63; bo.pad = d.pad;
        std::string m = message(op.salt, idx(op.a[0], 4096)); if((op.salt & 0xc00) == 0 && op.salt & 2) for(auto& c : m) c = (op.salt & 4) ? (char) 0xff : (op.salt & 8) ? 0 : (char) (c & 0xf);
        int lower = (int) (op.a[5] & 1); size_t room = idx(op.a[4], 64);
        switch(op.code) {
            case C_SEND: {
                std::string w = encode(m, lower, room);
                std::string full = w;
                if(which == 0 && d.pad && (op.salt & 16)) { while(!w.empty() && w.back() == d.pad) w.pop_back(); }   // a sender which leaves padding out
                if(which == 1 && (op.salt & 16)) for(size_t i = 0; i < w.size(); i++) if((mix2(op.salt, i) & 1) && w[i] >= 'A') w[i] ^= 0x20;
                std::string r = damage(w, (int) idx(op.a[2], CH_N), op.a[3] < 0 ? (i64) w.size() + op.a[3] + (w.size() < 4 ? 4 : 0) : op.a[3], op.salt >> 5, prev, d.pad && which == 0 ? d.pad : '=');
                decode(r, room, r == w ? &m : nullptr);
                prev = full;
                return R_OK;
            }
            case C_LEN: {
                HBuf src(m); std::string e = ref_enc(m, lower); int r = enc(src.p, (unsigned) m.size(), nullptr, 0, lower);
                CHECK(r == (int) e.size() + 1, "result", "size query for %zu bytes gave %d, expected %zu", m.size(), r, e.size() + 1);
                log_result((u64) r); return R_OK;
            }
            case C_SMALL: {
                HBuf src(m); std::string e = ref_enc(m, lower); if(e.empty()) return R_OK;
                size_t cap = op.salt & 32 ? e.size() - 1 : (size_t) (op.salt >> 8) % e.size(); HBuf out(cap);
                int r = enc(src.p, (unsigned) m.size(), out.c(), (unsigned) cap, lower);
                CHECK(r < 0, "result", "encoding %zu bytes into %zu characters of room returned %d", m.size(), cap, r);
                note_fault("receiver out of room"); log_result((u64) (i64) r); return R_OK;
            }
            default: decode(damage("", CH_GARBAGE, 0, op.salt, prev, '='), room, nullptr); return R_OK;
        }
    }
    u64 last = 0;
    u64 state_hash() override { return last; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"send", "size query", "too small output", "receive garbage"}; Dialect x = dialect(op.a[1], op.salt);
        char t[160]; snprintf(t, sizeof t, "%s %s %zu bytes, channel: %s, dialect %02x %02x %02x", which ? "hex" : "base64", nm[op.code % C_NOPS], idx(op.a[0], 4096), ch_name[idx(op.a[2], CH_N)], (u8) x.c62, (u8) x.c63, (u8) x.pad); return t;
    }
};

// -------------------------------------------------------------------- CRC-32
static u32 crc_ref(const std::string& s) {
    u32 c = 0xffffffffu;
    static u32 t[256]; if(!t[1]) for(u32 b = 0; b < 256; b++) { u32 x = b; for(int k = 0; k < 8; k++) x = (x >> 1) ^ (0xedb88320u & (0u - (x & 1))); t[b] = x; }
    for(u8 b : s) c = t[(c ^ b) & 255] ^ (c >> 8);
    return ~c;
}
struct CrcMachine : Machine {
    enum { W_APPEND, W_CRASH, W_ROT, W_BURST, W_SCAN, W_RAW, W_N };
    struct Rec { std::string data; u32 crc; std::string disk; u32 dcrc; int fault; };
    std::vector<Rec> log;
    void gen_ops(Rng& g, Plan& p, int task, int nops, int) override {
        static const int wt[W_N] = {30, 6, 12, 12, 10, 10};
        int tot = 0; for(int w : wt) tot += w;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), k = 0; while(r >= wt[k]) r -= wt[k++];
            o.code = k;
            switch(g.below(5)) { case 0: o.a[0] = (i64) g.below(3); break; case 1: o.a[0] = (i64) near_pow2(g, 2, 12); break; case 2: o.a[0] = (i64) g.below(5000); break; default: o.a[0] = (i64) g.below(80); }
            if(g.chance(1, 50)) o.a[0] = (i64) near_pow2(g, 11, 17);
            o.a[1] = (i64) (g.next() >> 1); o.a[2] = (i64) g.below(32); o.a[3] = (i64) g.below(8); o.salt = g.next();
            p.ops.push_back(o);
        }
    }
    u32 lib(const std::string& s, unsigned align) {
        // the same bytes at different alignments, in exactly sized memory
        HBuf b(s.size() + align); if(align) h_seal(b.p, 0);
        memcpy((char*) b.p + align, s.data(), s.size());
        u32 r = crc32((char*) b.p + align, s.size());
        CHECK(memcmp((char*) b.p + align, s.data(), s.size()) == 0, "content", "the checksum function changed its input");
        return r;
    }
    u32 checked(const std::string& s, unsigned align) {
        u32 r = lib(s, align), e = crc_ref(s);
        CHECK(r == e, "result", "checksum of %zu bytes is %08x, expected %08x", s.size(), r, e);
        log_result(r); return r;
    }
    int exec(const Op& op) override {
        size_t n = idx(op.a[0], 1 << 18); unsigned al = (unsigned) (op.a[3] & 7);
        switch(op.code) {
            case W_APPEND: { Rec r; r.data = message(op.salt, n); r.crc = checked(r.data, al); r.disk = r.data; r.dcrc = r.crc; r.fault = 0; log.push_back(r); if(log.size() > 24) log.erase(log.begin()); return R_OK; }
            case W_CRASH: {          // the machine dies while the last record is being written
                if(log.empty()) return R_OK; Rec& r = log.back(); if(r.disk.empty()) return R_OK;
                size_t keep = idx(op.a[1], r.disk.size()); note_fault("crash: torn record write");
                std::string old = message(op.salt, r.disk.size());                                   // stale bytes under it
                r.disk = r.disk.substr(0, keep) + old.substr(keep); r.fault |= r.disk != r.data ? 2 : 0; return R_OK;
            }
            case W_ROT: {
                if(log.empty()) return R_OK; Rec& r = log[idx(op.a[1], log.size())]; if(r.disk.empty()) return R_OK;
                int k = 1 + (int) (op.salt % 3);
                for(int i = 0; i < k; i++) { u64 b = mix2(op.salt, i) % (r.disk.size() * 8); r.disk[b / 8] ^= (char) (1 << (b & 7)); }
                note_fault("bit rot"); r.fault |= 2; return R_OK;
            }
            case W_BURST: {          // one damaged stretch of at most 32 bits: always detectable
                if(log.empty()) return R_OK; Rec& r = log[idx(op.a[1], log.size())]; if(r.disk.empty() || r.fault) return R_OK;
                u64 bits = r.disk.size() * 8, at = mix2(op.salt, 5) % bits, len = 1 + (u64) op.a[2] % 32; bool any = false;
                for(u64 b = at; b < at + len && b < bits; b++) if(b == at || (mix2(op.salt, b) & 1)) { r.disk[b / 8] ^= (char) (1 << (b & 7)); any = true; }
                if(any) r.fault |= 1; note_fault("damaged sector (burst)"); return R_OK;
            }
            case W_SCAN: {           // recovery reads the log back and validates every record
                for(auto& r : log) {
                    u32 c = checked(r.disk, al);
                    bool same = r.disk == r.data;      // damage can cancel out: stale bytes may happen to equal the lost ones
                    if(same) CHECK(c == r.dcrc, "result", "an intact record of %zu bytes fails validation", r.disk.size());
                    if(!same && r.fault == 1) CHECK(c != r.dcrc, "result", "a burst of at most 32 damaged bits in %zu bytes went unnoticed", r.disk.size());
                }
                return R_OK;
            }
            default: {               // splitting a record must not matter to what is checked
                std::string s(n, (char) op.salt); if(op.salt & 256) s = message(op.salt, n); checked(s, al); checked(std::string(), al); return R_OK;
            }
        }
    }
    u64 state_hash() override { u64 h = 8; for(auto& r : log) h = mix2(h, r.data.size() * 4 + r.fault); return h; }
    std::string describe(const Op& op) override { static const char* nm[] = {"append record", "crash during the last write", "bit rot", "damaged burst", "recovery scan", "checksum raw data"}; char t[120]; snprintf(t, sizeof t, "crc %s n=%zu pos=%lld", nm[op.code % W_N], idx(op.a[0], 1 << 18), (long long) op.a[1]); return t; }
};

// --------------------------------------------------------------------- FNV-1a
struct FnvMachine : Machine {
    enum { N_OPEN, N_READ, N_CRASH, N_DONE, N_ONESHOT, N_RACE, N_N };
    struct Str { std::string data; size_t off, saved; u32 h32, s32; u64 h64, s64; u32 e32, p32; u64 e64, p64; };   // e: what is expected, p: expected at the saved point
    Str s[3];
    static u32 r32(u32 h, const std::string& d) { for(u8 c : d) { u64 x = (u64) (h ^ c) * 16777619ull; h = (u32) x; } return h; }
    static u64 r64(u64 h, const std::string& d) { for(u8 c : d) { h ^= c; h = h + (h << 1) + (h << 4) + (h << 5) + (h << 7) + (h << 8) + (h << 40); } return h; }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int) override {
        static const int wt[N_N] = {8, 40, 8, 10, 10, 0};
        int tot = 0; for(int w : wt) tot += w;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), k = 0; while(r >= wt[k]) r -= wt[k++];
            o.code = i < 3 ? N_OPEN : k; o.a[0] = i < 3 ? i : (i64) g.below(3);
            switch(g.below(4)) { case 0: o.a[1] = (i64) g.below(3); break; case 1: o.a[1] = (i64) g.below(4000); break; default: o.a[1] = (i64) g.below(90); }
            if((o.code == N_OPEN || o.code == N_ONESHOT || o.code == N_READ) && g.chance(1, 50)) o.a[1] = (i64) near_pow2(g, 11, 17);
            o.a[2] = (i64) g.below(32); o.salt = g.next();
            p.ops.push_back(o);
        }
    }
    void start() override { for(auto& x : s) { x.data.clear(); x.off = x.saved = 0; x.h32 = x.s32 = FNV1A_BASE_32; x.h64 = x.s64 = FNV1A_BASE_64; x.e32 = x.p32 = 2166136261u; x.e64 = x.p64 = 14695981039346656037ull; } }
    void feed(Str& x, size_t n, unsigned al) {
        if(n > x.data.size() - x.off) n = x.data.size() - x.off;
        std::string d = x.data.substr(x.off, n); HBuf b(n + al); memcpy(b.c() + al, d.data(), n);
        x.h32 = fnv1a_32(x.h32, b.c() + al, n); x.h64 = fnv1a_64(x.h64, b.c() + al, n); x.off += n; x.e32 = r32(x.e32, d); x.e64 = r64(x.e64, d);
        CHECK(memcmp(b.c() + al, d.data(), n) == 0, "content", "the hash function changed its input");
        check(x, "while reading");
    }
    void check(Str& x, const char* when) {
        u32 e = x.e32; u64 f = x.e64;
        CHECK(x.h32 == e, "result", "%s: 32-bit hash of %zu bytes fed in pieces is %08x, expected %08x", when, x.off, x.h32, e);
        CHECK(x.h64 == f, "result", "%s: 64-bit hash of %zu bytes fed in pieces is %016llx, expected %016llx", when, x.off, (unsigned long long) x.h64, (unsigned long long) f);
        log_result(x.h32 ^ x.h64);
    }
    int exec(const Op& op) override {
        Str& x = s[idx(op.a[0], 3)]; size_t n = idx(op.a[1], 1 << 18); unsigned al = (unsigned) (op.a[2] & 7);
        switch(op.code) {
            case N_OPEN: x.data = message(op.salt, n + (size_t) (op.salt & 63)); x.off = x.saved = 0; x.h32 = x.s32 = FNV1A_BASE_32; x.h64 = x.s64 = FNV1A_BASE_64; x.e32 = x.p32 = 2166136261u; x.e64 = x.p64 = 14695981039346656037ull; return R_OK;
            case N_READ: if(op.salt & 1) note_fault("short read"); feed(x, op.salt & 1 ? (size_t) (op.salt >> 8) % (n + 1) : n, al); if(op.salt & 6) { x.saved = x.off; x.s32 = x.h32; x.s64 = x.h64; x.p32 = x.e32; x.p64 = x.e64; } return R_OK;
            case N_CRASH: note_fault("crash: restart from the saved state"); x.off = x.saved; x.h32 = x.s32; x.h64 = x.s64; x.e32 = x.p32; x.e64 = x.p64; return R_OK;
            case N_DONE: {
                while(x.off < x.data.size()) feed(x, 1 + (size_t) (mix2(op.salt, x.off) % (n + 1)), al);
                HBuf b(x.data); u32 a = fnv1a_32(FNV1A_BASE_32, b.p, b.n); u64 c = fnv1a_64(FNV1A_BASE_64, b.p, b.n);
                CHECK(a == x.h32 && c == x.h64, "result", "hash in pieces and hash in one go differ for %zu bytes", x.data.size()); check(x, "at the end");
                CHECK(a == r32(2166136261u, x.data) && c == r64(14695981039346656037ull, x.data), "result", "hash of %zu bytes is wrong", x.data.size()); return R_OK;
            }
            default: {
                std::string d = message(op.salt, n); HBuf b(d); u32 st = (u32) op.salt; u64 st64 = mix2(op.salt, 1);
                static const u64 odd[] = {0, 1, 0xff, ~0ull, 16777619u, 1099511628211ull, 1ull << 31, 1ull << 63};     // and states which the first byte turns into zero
                if(op.a[2] & 8) { st64 = (op.a[2] & 16) && !d.empty() ? (u8) d[0] : odd[(op.salt >> 40) & 7]; st = (u32) st64; }
                CHECK(fnv1a_32(st, b.p, n) == r32(st, d) && fnv1a_64(st64, b.p, n) == r64(st64, d), "result", "hash continued from an arbitrary state is wrong"); return R_OK;
            }
        }
    }
    u64 state_hash() override { u64 h = 9; for(auto& x : s) h = mix2(h, x.data.size() * 900000 + x.off); return h; }
    std::string describe(const Op& op) override { static const char* nm[] = {"open stream", "read a piece", "crash and resume", "read to the end", "one-shot", "race"}; char t[100]; snprintf(t, sizeof t, "fnv[%zu] %s n=%zu", idx(op.a[0], 3), nm[op.code % N_N], idx(op.a[1], 1 << 18)); return t; }
};
}
Machine* make_base64() { return new CodecMachine(0); }
Machine* make_hex() { return new CodecMachine(1); }
Machine* make_crc() { return new CrcMachine; }
Machine* make_fnv() { return new FnvMachine; }
