// Scenarios with states the simulated heap cannot hold: containers of more than
// 4 GiB, hundreds of thousands of items, very deep or very long inputs. They run
// copies of the library (symbols big_*, see run.py) on an allocator of their own
// whose large blocks are mapped lazily and which refuses requests on demand.
// One seed is one history; a violation prints "violated" and is replayed by it.
#include "util.h"
#include "shim.h"
#include "data/value.h"
#include "data/htable.h"
#include "data/rbtree.h"
#include "mem/memchunk.h"
#include "misc/cmdline.h"
#include "win/windows.h"
#include "win/objidl.h"
#include <climits>
#include <sys/mman.h>
#include <unistd.h>
#include <stdarg.h>
#include <cmath>
#include <unordered_set>
#include <algorithm>
extern "C" {
HRESULT memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream);
}
namespace {
int out_fd = 1; Rng* G; u64 SEED; bool quiet;
void say(const char* f, ...) { char b[500]; if(quiet && !strncmp(f, "info", 4)) return; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); (void) !write(out_fd, b, strlen(b)); }
#define BAD(cls, ...) do { say("violated " cls ": " __VA_ARGS__); say("\n"); _exit(1); } while(0)
#define NEED(c, cls, ...) do { if(!(c)) BAD(cls, __VA_ARGS__); } while(0)
#define NOMEM() do { say("info not enough memory for this scenario\n"); _exit(3); } while(0)

// ---------------------------------------------------------------- allocator
enum : size_t { LARGE = 256u << 10, PG = 4096, JUNK = 16u << 20 };     // fresh memory up to JUNK bytes is not zeroed
std::map<void*, size_t> large;              // mapped blocks and their sizes
u64 n_alloc, n_live, n_refused, n_bytes; int refuse;  // refuse: countdown to a refused request, -1: all
bool refused_now, out_of_memory;
size_t up(size_t n) { return (n + PG - 1) / PG * PG; }
bool refuses() {
    if(refuse < 0 || (refuse > 0 && --refuse == 0)) { refused_now = true; n_refused++; return true; }
    return false;
}
void chk_slack(void* p, size_t n) {
    const u8* q = (u8*) p; for(size_t i = n; i < up(n); i++) if(q[i]) BAD("memory", "something was written behind a block of %zu bytes", n);
}
struct Small { size_t n; u64 g; };           // followed by n bytes and 16 bytes of canary
enum : u64 { LIVE = 0x5a17c0de00c0ffeeull, DEAD = 0xdeadc0dedeadc0deull };
void chk_small(Small* s) {
    NEED(s->g == LIVE, "memory", "%s", s->g == DEAD ? "a block is released twice" : "a pointer which is no block is released, or its head was overwritten");
    const u8* q = (u8*) (s + 1) + s->n; for(int i = 0; i < 16; i++) if(q[i] != 0xc5) BAD("memory", "something was written behind a block of %zu bytes", s->n);
}
}
extern "C" {
void big_free(void* p);
void* big_malloc(size_t n) {
    n_alloc++; if(refuses()) return nullptr;
    if(n >= LARGE) {
        if(n > (1UL << 46)) { refused_now = true; return nullptr; }
        void* p = mmap(nullptr, up(n), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p == MAP_FAILED) { out_of_memory = refused_now = true; return nullptr; }
        if(n <= JUNK) memset(p, 0xa7, n);
        large[p] = n; n_live++; n_bytes += n; return p;
    }
    Small* s = (Small*) malloc(sizeof(Small) + n + 16); if(!s) { out_of_memory = refused_now = true; return nullptr; }
    s->n = n; s->g = LIVE; memset(s + 1, 0xa7, n); memset((u8*) (s + 1) + n, 0xc5, 16); n_live++; n_bytes += n; return s + 1;
}
void* big_calloc(size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) { n_alloc++; refused_now = true; return nullptr; } void* p = big_malloc(n); if(p && n <= JUNK) memset(p, 0, n); return p; }
void big_free(void* p) {
    if(!p) return;
    auto it = large.find(p);
    if(it != large.end()) { chk_slack(p, it->second); munmap(p, up(it->second)); n_bytes -= it->second; large.erase(it); n_live--; return; }
    Small* s = (Small*) p - 1; chk_small(s); s->g = DEAD; memset(s + 1, 0xde, s->n); n_live--; n_bytes -= s->n; free(s);
}
void* big_realloc(void* p, size_t n) {
    if(!p) return big_malloc(n);
    if(!n) { big_free(p); return nullptr; }
    auto it = large.find(p);
    if(it == large.end()) {
        Small* s = (Small*) p - 1; chk_small(s);
        void* q = big_malloc(n); if(!q) return nullptr;
        memcpy(q, p, std::min(n, s->n)); big_free(p); return q;
    }
    size_t o = it->second;
    if(n < LARGE) { void* q = big_malloc(n); if(!q) return nullptr; memcpy(q, p, std::min(n, o)); big_free(p); return q; }
    n_alloc++; if(refuses()) return nullptr;
    if(n > (1UL << 46)) { refused_now = true; return nullptr; }
    chk_slack(p, o);
    if(n < o) memset((u8*) p + n, 0, std::min(up(n), o) - n);
    void* q = mremap(p, up(o), up(n), MREMAP_MAYMOVE);
    if(q == MAP_FAILED) { out_of_memory = refused_now = true; return nullptr; }
    if(n > o && n <= JUNK) memset((u8*) q + o, 0xa7, n - o);
    large.erase(it); large[q] = n; n_bytes += n; n_bytes -= o; return q;
}
void* big_reallocarray(void* p, size_t a, size_t b) { size_t n; if(__builtin_mul_overflow(a, b, &n)) { n_alloc++; refused_now = true; return nullptr; } return big_realloc(p, n); }
char* big_strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* p = (char*) big_malloc(n + 1); if(p) { memcpy(p, s, n); p[n] = 0; } return p; }
char* big_strdup(const char* s) { return big_strndup(s, (size_t) -1); }
LONG big_sim_InterlockedIncrement(LONG volatile* p) { return ++*p; }
LONG big_sim_InterlockedDecrement(LONG volatile* p) { return --*p; }
LONG big_sim_InterlockedExchange(LONG volatile* p, LONG n) { LONG v = *p; *p = n; return v; }
LONG big_sim_InterlockedCompareExchange(LONG volatile* p, LONG n, LONG c) { LONG v = *p; if(v == c) *p = n; return v; }
LONG big_sim_InterlockedExchangeAdd(LONG volatile* p, LONG n) { LONG v = *p; *p += n; return v; }
}
namespace {
// Runs f with the k-th allocation refused (0: none, -1: all); tells whether one was.
template<class F> bool with_refusal(int k, F f) { refuse = k; refused_now = false; f(); refuse = 0; if(out_of_memory) NOMEM(); return refused_now; }
int pick_refusal() { switch(G->below(6)) { case 0: return 1; case 1: return 2; case 2: return -1; default: return 0; } }

// ------------------------------------------------- content as sparse markers
struct Marks {
    u64 size = 0; std::map<u64, u64> at; u64 next = 1;
    void put(u8* base, u64 off) {
        if(size < 8) return; if(off > size - 8) off = size - 8;
        auto it = at.lower_bound(off >= 7 ? off - 7 : 0);
        while(it != at.end() && it->first < off + 8) it = at.erase(it);
        u64 v = mix2(SEED, next++); memcpy(base + off, &v, 8); at[off] = v;
    }
    void sprinkle(u8* base) {
        for(u64 c : {(u64) 0, (u64) 1 << 16, (u64) 1 << 31, (u64) 1 << 32, (u64) 3 << 31, size / 2}) if(c < size) for(int d : {-24, -8, 0, 8, 500}) { i64 o = (i64) c + d; if(o >= 0) put(base, (u64) o); }
        for(int i = 0; i < 24; i++) put(base, size - std::min<u64>(size, 8 + G->below(1 << (3 + G->below(23)))));
        for(int i = 0; i < 8; i++) put(base, G->below(size));
    }
    void insert(u64 off, u64 n) {
        std::map<u64, u64> m; for(auto& e : at) if(e.first + 8 <= off) m.insert(e); else if(e.first >= off) m[e.first + n] = e.second;
        at.swap(m); size += n;
    }
    void remove(u64 off, u64 n) {
        std::map<u64, u64> m; for(auto& e : at) if(e.first + 8 <= off) m.insert(e); else if(e.first >= off + n) m[e.first - n] = e.second;
        at.swap(m); size -= n;
    }
    void truncate(u64 n) { if(n < size) remove(n, size - n); }
    void check(const u8* base, u64 sz, const char* when) {
        NEED(sz == size, "content", "%s: the size is %llu, expected %llu", when, (unsigned long long) sz, (unsigned long long) size);
        for(auto& e : at) { u64 v; memcpy(&v, base + e.first, 8); NEED(v == e.second, "content", "%s: the 8 bytes at offset %llu of %llu differ", when, (unsigned long long) e.first, (unsigned long long) size); }
    }
};
u64 some_gib() { return (1UL << 29) + G->below(1UL << 30); }

// ------------------------------------------------------------------- buffer
void buffers(int tier) {
    void* b = malloc(shb_sizeof()); shb_init(b); Marks m; int ops = 0; u64 maxsz = 0, fails = 0;
    auto data = [&]() { return (u8*) shb_data(b); };
    auto check = [&](const char* when) { m.check((const u8*) shb_cdata(b), shb_size(b), when); ops++; maxsz = std::max(maxsz, m.size); };
    auto grow = [&](u64 n) {
        for(int tries = 0; ; tries++) {
            void* r = nullptr; int k = tries ? 0 : pick_refusal();
            bool f = with_refusal(k, [&] { r = shb_append_raw(b, n); });
            if(r) { NEED((u8*) r == data() + m.size, "content", "appended space of %llu bytes is not at the end", (unsigned long long) n); m.insert(m.size, n); break; }
            NEED(f, "spurious-fail", "appending %llu bytes to %llu failed although no allocation failed", (unsigned long long) n, (unsigned long long) m.size);
            fails++; check("after a refused append");
        }
        check("after a large append"); m.sprinkle(data()); check("after filling");
    };
    u64 goal = (1UL << 32) + G->below(1UL << 31);
    if(G->chance(1, 2)) { u64 n = G->below(1UL << 33); int r = -1; bool f = with_refusal(pick_refusal(), [&] { r = shb_reserve(b, n); }); NEED(r == 0 || f, "spurious-fail", "reserving %llu bytes failed although no allocation failed", (unsigned long long) n);
        if(r == 0) { refuse = -1; void* p = n ? shb_append_raw(b, n) : shb_data(b); refuse = 0; NEED(p || !n, "capacity", "reserved space of %llu bytes cannot be used", (unsigned long long) n); if(n) { m.insert(0, n); m.sprinkle(data()); } } check("after a large reservation"); }
    while(m.size < goal) grow(some_gib());
    int full = quiet ? 0 : tier ? 3 : 1, n = tier ? 120 : 40;
    for(int i = 0; i < n; i++) {
        u64 tail = std::min<u64>(m.size, G->below(1UL << (4 + G->below(21)))), off = m.size - tail;
        switch(G->below(9)) {
            case 0: case 1: { std::string s = payload(SEED + i, 1 + G->below(5000)); int r = -1; bool f = with_refusal(pick_refusal(), [&] { r = shb_insert(b, off, s.data(), s.size()); });
                if(r == 0) { m.insert(off, s.size()); NEED(!memcmp(data() + off, s.data(), s.size()), "content", "inserted bytes differ"); }
                else { NEED(f, "spurious-fail", "insert failed although no allocation failed"); fails++; } check("after insert"); break; }
            case 2: { u64 k = G->below(tail + 1); shb_remove(b, off, k); m.remove(off, k); check("after remove"); break; }
            case 3: { if(m.size < (1UL << 31)) { grow(some_gib() * 2); break; }
                u64 o = G->below(1 << 20), k = m.size - o - G->below(std::min<u64>(m.size - o, 1 << 20)); if(G->chance(1, 2)) k = std::min(k, (1UL << 32) + G->below(1 << 20));
                if(m.size - o - k > (64u << 20)) k = m.size - o - G->below(1 << 20);
                shb_remove(b, o, k); m.remove(o, k); check("after removing a large middle part"); break; }
            case 4: { u64 k = G->chance(1, 2) ? (1UL << 32) + G->below(5000) : some_gib(); void* r = nullptr; bool f = with_refusal(pick_refusal(), [&] { r = shb_insert_raw(b, off, k); });
                if(r) { NEED(r == data() + off, "content", "space inserted at %llu is elsewhere", (unsigned long long) off); m.insert(off, k); m.sprinkle(data()); } else { NEED(f, "spurious-fail", "insert of %llu bytes failed although no allocation failed", (unsigned long long) k); fails++; } check("after inserting a large part"); break; }
            case 5: { u64 k = m.size - G->below(std::min<u64>(m.size + 1, 1 << 20)); int r = -1; bool f = with_refusal(pick_refusal(), [&] { r = shb_realloc(b, k); }); if(r == 0) m.truncate(k); else { NEED(f, "spurious-fail", "realloc failed although no allocation failed"); fails++; } check("after truncation"); break; }
            case 6: { with_refusal(pick_refusal(), [&] { shb_shrink(b); }); check("after shrink"); break; }
            case 7: { if(full-- <= 0 || m.size > (11UL << 29)) break; if(m.size < (1UL << 32)) grow((1UL << 32) - m.size + 4096);
                u64 o = G->below(4096); char c[7] = "insert"; int r = shb_insert(b, o, c, 6); if(r) { if(out_of_memory) NOMEM(); BAD("spurious-fail", "insert failed although no allocation failed"); } m.insert(o, 6); check("after an insert near the start");
                u64 k = 1 + G->below(4096); o = G->below(4096); shb_remove(b, o, k); m.remove(o, k); check("after a remove near the start"); break; }
            default: if(m.size < (1UL << 34)) grow(some_gib() + (G->chance(1, 3) ? 1UL << 32 : 0));
        }
        if(m.size > (1UL << 35)) { shb_clear(b); m = Marks(); NEED(shb_is_empty(b), "content", "not empty after clear"); grow(goal); }
    }
    size_t sz = 0; void* p = shb_acquire(b, &sz); m.check((u8*) p, sz, "after take-over"); big_free(p); NEED(shb_size(b) == 0, "content", "not empty after take-over"); shb_fini(b); free(b);
    say("info buffer up to %llu bytes: %d operations, %llu refused for lack of memory, sparse content exact\n", (unsigned long long) maxsz, ops, (unsigned long long) fails);
}

// A byte-exact model of up to a few hundred KiB: every capacity a buffer can
// shrink to and grow from, by small and large steps.
void ladders(int tier) {
    void* b = malloc(shb_sizeof()); shb_init(b); std::string m; u64 ops = 0, fails = 0;
    auto check = [&](const char* when) { ops++; NEED(shb_size(b) == m.size(), "content", "%s: the size is %zu, expected %zu", when, shb_size(b), m.size()); NEED(m.empty() || !memcmp(shb_cdata(b), m.data(), m.size()), "content", "%s: the %zu bytes differ", when, m.size()); };
    for(int c = 0; c < (tier ? 300 : 60); c++) {
        size_t top = 1 + G->below((u64) 1 << (3 + G->below(17))), big = G->chance(1, 3) ? 1 : 1 + G->below(top / 4 + 1);
        while(m.size() < top) {
            std::string d = message(SEED + ops + 1, 1 + G->below(big)); if(top > 20000 && d.size() < 64) d = message(SEED + ops, 64 + d.size()); size_t off = G->chance(1, 2) ? m.size() : G->below(m.size() + 1); int r = -1;
            bool f = with_refusal(G->chance(1, 30) ? -1 : 0, [&] { r = off == m.size() ? shb_append(b, d.data(), d.size()) : shb_insert(b, off, d.data(), d.size()); });
            if(r == 0) m.insert(off, d); else { NEED(f, "spurious-fail", "adding %zu bytes to %zu failed although no allocation failed", d.size(), m.size()); fails++; }
            check("while growing");
        }
        size_t floor = G->chance(1, 3) ? 0 : G->below(m.size()), step = 1 + G->below(5);
        while(m.size() > floor) { size_t k = std::min(1 + G->below(m.size() / (1 + step) + 1), m.size() - floor), p = G->chance(1, 3) ? m.size() - k : G->below(m.size() - k + 1); shb_remove(b, p, k); m.erase(p, k); if(G->chance(1, 6)) with_refusal(pick_refusal(), [&] { shb_shrink(b); }); check("while shrinking"); }
    }
    shb_fini(b); free(b); NEED(n_live == 0, "leak", "%llu blocks remain allocated", (unsigned long long) n_live);
    say("info buffer shrinking to and growing from all sizes up to %d KiB: %llu operations, %llu refused\n", 512, (unsigned long long) ops, (unsigned long long) fails);
}

// --------------------------------------------------------- stack and arrays
u64 norm(int t, u64 v) {
    switch(t) { case 0: return (u64) (i64) (int8_t) v; case 1: return (u8) v; case 2: return (u64) (i64) (int16_t) v; case 3: return (uint16_t) v;
                case 4: return (u64) (i64) (int32_t) v; case 5: return (u32) v; default: return v; }
}
void stacks(int tier) {
    void* s = malloc(shb_sizeof()); shs_init(s);
    std::string low = payload(SEED, 64); if(shs_push(s, low.data(), 64)) NOMEM();
    u64 n = (1UL << 32) + G->below(1 << 30); if(!shs_push_raw(s, n)) { if(out_of_memory) NOMEM(); BAD("spurious-fail", "pushing %llu bytes failed although no allocation failed", (unsigned long long) n); }
    u64 depth = 64 + n; std::vector<std::pair<int, u64>> in; static const int sz[9] = {1, 1, 2, 2, 4, 4, 8, 8, 8};
    for(int i = 0; i < 3000; i++) {
        int t = (int) G->below(9); u64 v = norm(t, G->next());
        if(in.size() < 40 || G->chance(4, 7)) { if(shs_push_t(s, t, v)) { if(out_of_memory) NOMEM(); BAD("spurious-fail", "a push failed although no allocation failed"); } in.push_back({t, v}); depth += sz[t]; }
        else { u64 k = shs_peek_t(s, in.back().first); NEED(k == in.back().second, "content", "peek at depth %llu gives another value than was pushed", (unsigned long long) depth); k = shs_pop_t(s, in.back().first); NEED(k == in.back().second, "content", "pop at depth %llu gives another value than was pushed", (unsigned long long) depth); depth -= sz[in.back().first]; in.pop_back(); }
        NEED(shs_size(s) == depth, "content", "the stack holds %zu bytes, expected %llu", shs_size(s), (unsigned long long) depth);
        if(i % 500 == 499) { u64 m = (1UL << 32) + G->below(99999), tag = G->next(); if(depth < (1UL << 36) && shs_push_raw(s, m)) { memcpy((char*) shs_data(s) + depth + m - 8, &tag, 8); u64 back; NEED(shs_size(s) == depth + m, "content", "the stack size is wrong after pushing %llu bytes", (unsigned long long) m); shs_peek(s, &back, 8); NEED(back == tag, "content", "peek gives other bytes than the last pushed"); const void* q = shs_pop_raw(s, m); NEED(q == (char*) shs_data(s) + depth, "content", "the popped block of %llu bytes starts elsewhere", (unsigned long long) m); } else NOMEM(); }
    }
    while(!in.empty()) { u64 k = shs_pop_t(s, in.back().first); NEED(k == in.back().second, "content", "pop gives another value than was pushed"); in.pop_back(); }
    shs_pop_raw(s, n); NEED(shs_size(s) == 64 && !memcmp(shs_cdata(s), low.data(), 64), "content", "what lies under a block of %llu bytes changed", (unsigned long long) n);
    {   // records of up to a few hundred KiB
        shs_clear(s); std::vector<std::string> in; size_t d = 0; std::vector<char> out(1 << 19);
        for(int i = 0; i < (tier ? 600 : 120); i++) {
            if(in.empty() || (d < (8u << 20) && G->chance(5, 9))) { std::string r = payload(SEED + i, 1 + G->below((u64) 1 << (1 + G->below(18)))); void* q = (void*) 1; if(i & 1 ? shs_push(s, r.data(), r.size()) != 0 : !(q = shs_push_raw(s, r.size()))) NOMEM(); if(!(i & 1)) { NEED((char*) q == (char*) shs_data(s) + d, "content", "space of %zu bytes pushed is not on top", r.size()); memcpy(q, r.data(), r.size()); } d += r.size(); in.push_back(r); }
            else { const std::string& r = in.back(); memset(out.data(), 0x5a, r.size() + 1); NEED(!memcmp(shs_peek_raw(s, r.size()), r.data(), r.size()), "content", "the top %zu bytes differ", r.size());
                if(i & 1) { shs_peek(s, out.data(), r.size()); NEED(!memcmp(out.data(), r.data(), r.size()), "content", "peek of %zu bytes gives others than were pushed", r.size()); memset(out.data(), 0x5a, r.size() + 1); }
                if(i % 3) { shs_pop(s, out.data(), r.size()); NEED(!memcmp(out.data(), r.data(), r.size()) && out[r.size()] == 0x5a, "content", "pop of %zu bytes gives others than were pushed", r.size()); } else { void* q = shs_pop_raw(s, r.size()); NEED(!memcmp(q, r.data(), r.size()), "content", "pop of %zu bytes gives others than were pushed", r.size()); }
                d -= r.size(); in.pop_back(); }
            NEED(shs_size(s) == d, "content", "the stack holds %zu bytes, expected %zu", shs_size(s), d); size_t o = 0; const char* c = (const char*) shs_cdata(s); for(auto& r : in) { if(memcmp(c + o, r.data(), r.size())) BAD("content", "bytes at offset %zu of %zu differ", o, d); o += r.size(); }
        } }
    shs_fini(s); free(s);
    say("info stack of %llu bytes: pushes and pops exact\n", (unsigned long long) n);
}
void arrays(int tier) {
    for(int t = 0; t < 9; t++) {            // more items than 16 bits count
        const SHA& A = sh_arrays[t]; void* a = malloc(shb_sizeof()); A.init(a); std::vector<u64> m;
        auto fillin = [&](size_t i, size_t n) { for(size_t k = 0; k < n; k++) { u64 v = norm(t, G->next()); A.set(a, i + k, v); m[i + k] = v; } };
        auto check = [&](const char* when) { NEED(A.size(a) == m.size(), "content", "%s: %zu items of type %d, expected %zu", when, A.size(a), t, m.size()); for(size_t i = 0; i < m.size(); i++) if(A.get(a, i) != m[i]) BAD("content", "%s: item %zu of %zu (type %d) differs", when, i, m.size(), t); };
        size_t n = 60000 + G->below(30000); if(A.append_n(a, n)) NOMEM(); m.resize(n); fillin(0, n); check("after append_n");
        for(int i = 0; i < (tier ? 30 : 10); i++) {
            if(m.size() < (i < 10 ? 150000 : 2000)) { size_t k = 1000 + G->below(100000); if(A.append_n(a, k)) NOMEM(); m.resize(m.size() + k); fillin(m.size() - k, k); }
            size_t p = G->chance(1, 2) ? m.size() - G->below(m.size() / 2) : G->below(m.size()), k = G->chance(1, 2) ? 65536 + G->below(9000) : 1 + G->below(3000);
            switch(i % 5) {
                case 0: if(m.size() > 400000) break; if(A.insert_n_raw(a, p, k)) NOMEM(); m.insert(m.begin() + p, k, 0); fillin(p, k); check("after insert_n"); break;
                case 1: if(m.size() > 400000) break; if(A.append_n(a, k)) NOMEM(); m.resize(m.size() + k); fillin(m.size() - k, k); check("after append_n"); break;
                case 2: k = std::min(k, m.size() - p); if(m.size() - k < 66000 && G->chance(1, 2)) break; A.remove_n(a, p, k); m.erase(m.begin() + p, m.begin() + p + k); check("after remove_n"); break;
                case 3: for(int j = 0; j < 20; j++) { p = m.size() - G->below(m.size() / 2); u64 v = norm(t, G->next()); if(j & 1) { if(A.insert_raw(a, p)) NOMEM(); A.set(a, p, v); } else if(A.insert(a, p, v)) NOMEM(); m.insert(m.begin() + p, v); p = G->below(m.size()); v = norm(t, G->next()); A.set(a, p, v); m[p] = v; } check("after insertions"); break;
                default: for(int j = 0; j < 20; j++) { p = m.size() - 1 - G->below(m.size() / 2); A.remove(a, p); m.erase(m.begin() + p); } check("after removals");
            }
        }
        // Down through all sizes and up again, so that it grows from every capacity it shrank to.
        for(int c = 0; c < (tier ? 12 : 3); c++) {
            size_t floor = G->chance(1, 3) ? 0 : G->below(40000), step = 1 + G->below(4);
            while(m.size() > floor) { size_t k = std::min(1 + G->below(m.size() / (1 + step) + 1), m.size() - floor), p = G->below(m.size() - k + 1); A.remove_n(a, p, k); m.erase(m.begin() + p, m.begin() + p + k); check("while shrinking"); if(m.size() < 40 && G->chance(1, 2)) break; }
            size_t top = 1 + G->below((u64) 1 << (4 + G->below(13)));
            for(size_t k = 0; k < top; k++) { size_t p = G->chance(1, 100) ? G->below(m.size() + 1) : m.size(); u64 v = norm(t, G->next()); if(p < m.size() ? A.insert(a, p, v) : A.append(a, v)) NOMEM(); m.insert(m.begin() + p, v); }
            check("after growing again");
        }
        A.fini(a); free(a);
    }
    say("info 9 array types with more than 65536 items: exact\n");
    std::vector<int> ts = {0, 1, 2, 3, 4, 5, 6, 7, 8}; if(quiet) ts = {(int) G->below(2), 2 + (int) G->below(4), 6 + (int) G->below(3)};
    for(int t : ts) {                        // more bytes, or even items, than 32 bits count
        const SHA& A = sh_arrays[t]; u64 z = A.elem; void* a = malloc(shb_sizeof()); A.init(a); std::map<u64, u64> m; u64 n = 0;
        auto put = [&](u64 i) { u64 v = norm(t, G->next()); A.set(a, i, v); m[i] = v; };
        auto check = [&](const char* when) { NEED(A.size(a) == n, "content", "%s: %zu items of type %d, expected %llu", when, A.size(a), t, (unsigned long long) n); for(auto& e : m) if(A.get(a, e.first) != e.second) BAD("content", "%s: item %llu of %llu (type %d) differs", when, (unsigned long long) e.first, (unsigned long long) n, t); };
        auto shift = [&](u64 from, u64 gone, u64 by, bool ins) { std::map<u64, u64> r; for(auto& e : m) if(e.first < from) r.insert(e); else if(ins) r[e.first + by] = e.second; else if(e.first >= from + gone) r[e.first - gone] = e.second; m.swap(r); };
        auto sprinkle = [&]() { for(u64 c : {(u64) 0, (u64) 65536, (1UL << 31) / z, (1UL << 32) / z, 1UL << 31, 1UL << 32, n - 20}) for(int d = -3; d <= 3; d++) if((i64) (c + d) >= 0 && c + d < n) put(c + d); for(int i = 0; i < 30; i++) { put(n - 1 - G->below(std::min<u64>(n, 4000))); put(G->below(n)); } };
        auto app = [&](u64 k) { int r = -1; bool f = with_refusal(pick_refusal(), [&] { r = A.append_n(a, k); }); if(r) { NEED(f, "spurious-fail", "appending %llu items failed although no allocation failed", (unsigned long long) k); check("after a refused append_n"); if(A.append_n(a, k)) { if(out_of_memory) NOMEM(); BAD("spurious-fail", "appending %llu items failed although no allocation failed", (unsigned long long) k); } } n += k; check("after append_n"); sprinkle(); check("after setting items"); };
        app(((1UL << 31) + G->below(1 << 30)) / z); app(((1UL << 32) + G->below(1 << 30)) / z);
        if(z > 1 && (!quiet || G->chance(1, 2))) app((1UL << 32) + G->below(5000));    // more items than 32 bits count
        for(int i = 0; i < (quiet ? 25 : 60); i++) {
            u64 p = n - 1 - G->below(std::min<u64>(n, 100000)), k = 1 + G->below(std::min<u64>(n - p, 5000)); u64 v = norm(t, G->next());
            switch(G->below(5)) {
                case 0: if(i & 1) { if(A.insert_raw(a, p)) NOMEM(); A.set(a, p, v); } else if(A.insert(a, p, v)) NOMEM(); n++; shift(p, 0, 1, true); m[p] = v; check("after insert"); break;
                case 1: if(i & 1) { if(A.append_raw(a)) NOMEM(); A.set(a, n, v); } else if(A.append(a, v)) NOMEM(); m[n++] = v; check("after append"); break;
                case 2: A.remove(a, p); n--; shift(p, 1, 0, false); check("after remove"); break;
                case 3: A.remove_n(a, p, k); n -= k; shift(p, k, 0, false); check("after remove_n"); break;
                default: if(A.insert_n_raw(a, p, k)) NOMEM(); n += k; shift(p, 0, k, true); for(u64 j = p; j < p + k; j += 7) put(j); check("after insert_n"); break;
            }
        }
        if((!quiet && t == 8) || G->chance(1, 3)) { // taken over while it is that large
            size_t cnt = 0; u8* p = (u8*) A.acquire(a, &cnt); NEED(cnt == n, "content", "take-over reports %zu items of %llu", cnt, (unsigned long long) n);
            for(auto& e : m) { u64 v = 0; memcpy(&v, p + e.first * z, z); if(norm(t, v) != e.second) BAD("content", "item %llu of %llu (type %d) differs after the take-over", (unsigned long long) e.first, (unsigned long long) n, t); }
            big_free(p); n = 0; m.clear(); check("after the take-over"); A.fini(a); free(a); continue; }
        u64 q = G->below(100), k = n - q - G->below(100000); A.remove_n(a, q, k); n -= k; shift(q, k, 0, false); check("after removing almost everything");
        size_t cnt = 0; void* p = A.acquire(a, &cnt); NEED(cnt == n, "content", "take-over reports %zu items of %llu", cnt, (unsigned long long) n); big_free(p); A.fini(a); free(a);
    }
    say("info %zu array types of more than 4 GiB: exact at sampled items\n", ts.size());
}

// -------------------------------------------------------------------- table
struct HN { HTABLE_NODE node; u64 key; int in; };
int hmode; u64 hcmp;
HN* hof(const HTABLE_NODE* n) { return HTABLE_DATA(n, HN, node); }
int hcmpf(const HTABLE_NODE* a, const HTABLE_NODE* b) { hcmp++; u64 x = hof(a)->key, y = hof(b)->key; return x == y ? 0 : x < y ? -1 : 1; }
u32 hhash(const HTABLE_NODE* a) { u64 k = hof(a)->key; switch(hmode) { case 0: return (u32) mix2(k, 3); case 1: return (u32) k; case 2: return 0u - (u32) k; default: return (u32) (mix2(k, 4) | 0x80000000u); } }
u64 hgone; void hdtor(HTABLE_NODE* n) { HN* x = hof(n); NEED(x->in == 1, "content", "the destructor got a node which is not in the table"); x->in = 2; hgone++; }
void tables(int tier) {
    hmode = (int) G->below(4); u64 N = (tier ? 1500000 : 400000) + G->below(100000), in = 0; u64 maxcmp = 0;
    std::vector<HN> v(N); HTABLE* t = (HTABLE*) calloc(1, sizeof(HTABLE)); sh_htable_init(t);
    for(u64 i = 0; i < N; i++) { v[i].key = i * 7 + 1; v[i].in = 0; }
    auto ins = [&](u64 i) { hcmp = 0; int r = -1; bool f = with_refusal(G->chance(1, 50000) ? -1 : 0, [&] { r = htable_insert(t, &v[i].node, hcmpf, hhash); }); maxcmp = std::max(maxcmp, hcmp);
        if(v[i].in) { NEED(r == -1, "content", "a second node with equal key was accepted"); return; } if(r) { NEED(f, "spurious-fail", "insert failed although no allocation failed (%llu nodes)", (unsigned long long) in); return; } v[i].in = 1; in++; };
    auto probe = [&](u64 i) { HN k; memset(&k, 0, sizeof k); k.key = v[i].key; HTABLE_NODE* n = htable_lookup(t, &k.node, hcmpf, hhash); if(n != (v[i].in ? &v[i].node : nullptr)) BAD("content", "lookup of key %llu among %llu nodes gives %s", (unsigned long long) v[i].key, (unsigned long long) in, n ? "another node" : "nothing although it is present"); };
    auto rem = [&](u64 i) { HN k; memset(&k, 0, sizeof k); k.key = v[i].key; HTABLE_NODE* n = htable_remove(t, &k.node, hcmpf, hhash); NEED(n == (v[i].in ? &v[i].node : nullptr), "content", "removal of key %llu among %llu nodes gives %s", (unsigned long long) v[i].key, (unsigned long long) in, n ? "another node" : "nothing although it is present"); if(v[i].in) { v[i].in = 0; in--; } };
    for(u64 i = 0; i < N; i++) { ins(i); if(i % 8 == 0) probe(G->below(N)); if(i % 16 == 0) ins(G->below(N)); }
    hcmp = 0; for(u64 i = 0; i < N; i++) probe(i);
    auto mean = [&](u64 ops) { NEED(hcmp <= 64 * ops, "cost", "%llu lookups among %llu nodes, whose hashes are spread evenly, took %llu comparisons", (unsigned long long) ops, (unsigned long long) in, (unsigned long long) hcmp); }; mean(N);
    u64 keep = 2000 + G->below(5000); for(u64 i = 0; i < N - keep; i++) { rem(i); if(i % 8 == 0) probe(G->below(N)); } for(u64 i = 0; i < N; i += i < N - 2 * keep ? 5 : 1) probe(i);
    for(u64 i = 0; i < N; i += 3) ins(i); hcmp = 0; for(u64 i = 0; i < N; i += 2) probe(i); mean(N / 2);
    hgone = 0; htable_fini(t, hdtor); NEED(hgone == in, "content", "the destructor was called for %llu of %llu nodes", (unsigned long long) hgone, (unsigned long long) in);
    // and used again afterwards
    in = 0; for(u64 i = 0; i < N; i++) v[i].in = 0; NEED(sh_htable_is_empty(t), "content", "not empty after fini"); u64 again = 40000 + G->below(40000);
    for(u64 i = 0; i < again; i++) { if(i < 3) probe(i); if(i < 3) rem(i); ins(i); if(i % 8 == 0) probe(G->below(N)); } hcmp = 0; for(u64 i = 0; i < again; i++) probe(i); mean(again);
    for(u64 i = 0; i < again; i++) rem(i); NEED(sh_htable_is_empty(t), "content", "not empty after all was removed"); hgone = 0; htable_fini(t, G->chance(1, 2) ? hdtor : nullptr); NEED(hgone == 0 && n_live == 0, "leak", "%llu blocks remain allocated", (unsigned long long) n_live);
    free(t); say("info table of %llu nodes (hash %d): exact; at most %llu comparisons in an insertion\n", (unsigned long long) N, hmode, (unsigned long long) maxcmp);
}

// --------------------------------------------------------------------- tree
struct TN { u64 key; RBTREE_NODE node; int in; };
TN* tof(const RBTREE_NODE* n) { return RBTREE_DATA(n, TN, node); }
u64 tcmp; int tcmpf(const RBTREE_NODE* a, const RBTREE_NODE* b) { tcmp++; u64 x = tof(a)->key, y = tof(b)->key; return x == y ? 0 : x < y ? (x & 1 ? INT_MIN : -1) : 0x7fffffff; }
void trees(int tier, int round) {
    u64 N = (tier ? 3000000 : 500000) + G->below(200000), in = 0; int order = round == 0 ? (int) G->below(2) : (int) G->below(5); double worst = 0;
    std::vector<TN> v(N); RBTREE* t = (RBTREE*) calloc(1, sizeof(RBTREE)); sh_rbtree_init(t);
    for(u64 i = 0; i < N; i++) { u64 r = i; switch(order) { case 0: break; case 1: r = N - i; break; case 2: r = i & 1 ? N + i : N - i; break; case 3: r = (i % 1000) * (N / 1000 + 1) + i / 1000; break; default: r = mix2(SEED, i) >> 1; } v[i].key = r; v[i].in = 0; }
    auto cost = [&](const char* what) { double lim = 8 * std::log2((double) in + 2) + 8; worst = std::max(worst, tcmp / lim); NEED(tcmp <= lim, "cost", "%s among %llu nodes took %llu comparisons, a balanced tree needs at most %.0f", what, (unsigned long long) in, (unsigned long long) tcmp, lim); };
    auto probe = [&](u64 i) { TN k; memset(&k, 0, sizeof k); k.key = v[i].key; tcmp = 0; RBTREE_NODE* n = rbtree_lookup(t, &k.node, tcmpf); cost("a lookup"); if(v[i].in ? n != &v[i].node : n && tof(n)->key != v[i].key) BAD("content", "lookup of key %llu among %llu nodes is wrong", (unsigned long long) v[i].key, (unsigned long long) in); };
    auto walk = [&](bool back, size_t from) {
        RBTREE_CURSOR* c = (RBTREE_CURSOR*) malloc(sizeof(RBTREE_CURSOR) + 1024); memset(c + 1, 0x5e, 1024); sh_rbcursor_init(c); u64 cnt = 0, last = 0; bool first = true; RBTREE_NODE* n;
        if(from) { TN k; memset(&k, 0, sizeof k); k.key = from; n = rbtree_lookup_ex(t, &k.node, tcmpf, c); } else n = back ? rbtree_tail(t, c) : rbtree_head(t, c);
        for(; n; n = back ? rbtree_prev(c) : rbtree_next(c)) { TN* x = tof(n); NEED(x->in == 1, "content", "a walk meets a node which is not in the tree"); NEED(first || (back ? x->key < last : x->key > last), "content", "a walk over %llu nodes is out of order", (unsigned long long) in); last = x->key; first = false; if(++cnt > in) BAD("content", "a walk meets more nodes than there are"); }
        NEED(from || cnt == in, "content", "a walk meets %llu of %llu nodes", (unsigned long long) cnt, (unsigned long long) in); for(int i = 0; i < 1024; i++) NEED(((u8*) (c + 1))[i] == 0x5e, "memory", "a walk over %llu nodes writes behind the cursor", (unsigned long long) in); free(c); };
    u64 rank_dup = 0; std::unordered_set<u64> keys;
    for(u64 i = 0; i < N; i++) { tcmp = 0; int r = rbtree_insert(t, &v[i].node, tcmpf); bool dup = !keys.insert(v[i].key).second; NEED((r != 0) == dup, "content", "insertion of %s key among %llu nodes %s", dup ? "a present" : "a new", (unsigned long long) in, dup ? "was accepted" : "failed"); cost("an insertion"); if(!dup) { v[i].in = 1; in++; } else rank_dup++; if(i % 4 == 0) probe(G->below(i + 1)); }
    walk(false, 0); walk(true, 0); for(int i = 0; i < 3; i++) { u64 k = v[G->below(N)].key; walk(i & 1, k); }
    for(u64 i = 0; i < N; i++) { u64 j = order == 0 ? i : (i * 2654435761ull + SEED) % N; if(!v[j].in || (i & 3) == 3) continue; TN k; memset(&k, 0, sizeof k); k.key = v[j].key; tcmp = 0; RBTREE_NODE* n = rbtree_remove(t, &k.node, tcmpf); cost("a removal"); NEED(n == &v[j].node, "content", "removal among %llu nodes gives %s", (unsigned long long) in, n ? "another node" : "nothing although it is present"); v[j].in = 0; in--; if(i % 4 == 0) { u64 q = G->below(N); if(v[q].in) probe(q); } }
    walk(false, 0); walk(true, 0);
    u64 cnt = 0; while(RBTREE_NODE* n = rbtree_fini_step(t)) { TN* x = tof(n); NEED(x->in == 1, "content", "dismantling returns a node twice, or one which is not in the tree"); x->in = 2; memset(&x->node, 0xdd, sizeof x->node); cnt++; }
    NEED(cnt == in, "content", "dismantling returns %llu of %llu nodes", (unsigned long long) cnt, (unsigned long long) in);
    free(t); say("info tree of %llu nodes (insertion order %d): exact; costliest operation took %.0f %% of the comparison bound\n", (unsigned long long) N, order, worst * 100);
}

// ------------------------------------------------------------------- values
int dorder;     // keys come in ascending, descending or random order
std::string skey(u64 i) { char b[60]; if(dorder == 1) { snprintf(b, sizeof b, "%010llu", (unsigned long long) i); return b; } if(dorder == 2) { snprintf(b, sizeof b, "%010llu", 9999999999ULL - i); return b; } snprintf(b, sizeof b, "k%llx", (unsigned long long) mix2(i, 77)); std::string s = b; if(i % 7 == 0) s += std::string(i % 300, 'z'); if(i % 11 == 0) s[2] = 0; return s; }
u64 dcmp; int dcmpf(const char* a, size_t an, const char* b, size_t bn) { dcmp++; int r = memcmp(a, b, std::min(an, bn)); return r ? r : an < bn ? -1 : an > bn; }
struct WalkCtx { u64 n = 0; const std::vector<u64>* order; bool sorted; std::string last; u64 stop; };
int visit(const VALUE* k, VALUE* v, void* c) {
    WalkCtx* w = (WalkCtx*) c; std::string s(value_string(k), value_string_length(k));
    if(w->sorted) NEED(w->n == 0 || w->last < s, "order", "a sorted walk is out of order at item %llu", (unsigned long long) w->n);
    else { NEED(w->n < w->order->size() && s == skey((*w->order)[w->n]), "order", "an ordered walk is out of order at item %llu", (unsigned long long) w->n); }
    NEED(value_type(v) == VALUE_UINT64 && skey(value_uint64(v)) == s, "content", "a walk pairs a key with another value");
    w->last = s; w->n++; return w->n == w->stop ? 17 : 0;
}
void dicts(int tier, int round) {
    dorder = round == 0 ? 1 + (int) G->below(2) : round == 1 ? 0 : (int) G->below(3);
    u64 N = (tier ? 700000 : 200000) + G->below(50000); bool custom = G->chance(1, 2); std::vector<u64> order; std::vector<char> in(N, 0);
    VALUE d; if(value_init_dict_ex(&d, custom ? dcmpf : nullptr, VALUE_DICT_MAINTAINORDER)) NOMEM();
    auto lim = [&](const char* what) { double l = 8 * std::log2((double) value_dict_size(&d) + 2) + 8; NEED(!custom || dcmp <= l, "cost", "%s among %zu items took %llu comparisons, expected at most %.0f", what, value_dict_size(&d), (unsigned long long) dcmp, l); };
    auto probe = [&](u64 i) { std::string k = skey(i); dcmp = 0; VALUE* v = value_dict_get_(&d, k.data(), k.size()); lim("a lookup"); NEED((v != nullptr) == (in[i] != 0), "content", "a key is %s among %zu", v ? "found though absent" : "not found though present", value_dict_size(&d)); if(v) NEED(value_uint64(v) == i, "content", "a key gives another key's value"); };
    auto all = [&]() {
        NEED(value_dict_size(&d) == order.size(), "content", "the dictionary has %zu items, expected %zu", value_dict_size(&d), order.size());
        size_t room = order.size() + 3; std::vector<const VALUE*> b(room, nullptr); size_t n = value_dict_keys_ordered(&d, b.data(), room); NEED(n == order.size(), "order", "ordered retrieval gives %zu of %zu keys", n, order.size());
        for(size_t i = 0; i < n; i++) { std::string s(value_string(b[i]), value_string_length(b[i])); NEED(s == skey(order[i]), "order", "key %zu of the ordered retrieval is another than inserted", i); } for(size_t i = n; i < room; i++) NEED(!b[i], "content", "a key was written behind the buffer");
        std::fill(b.begin(), b.end(), nullptr); n = value_dict_keys_sorted(&d, b.data(), room); NEED(n == order.size(), "order", "sorted retrieval gives %zu of %zu keys", n, order.size()); std::string last; for(size_t i = 0; i < n; i++) { std::string s(value_string(b[i]), value_string_length(b[i])); NEED(!i || last < s, "order", "sorted retrieval is out of order at key %zu", i); last = s; }
        size_t part = order.size() ? 1 + G->below(order.size()) : 0; std::fill(b.begin(), b.end(), nullptr); for(int q = 0; q < 2 && part; q++) { n = q ? value_dict_keys_sorted(&d, b.data(), part) : value_dict_keys_ordered(&d, b.data(), part); NEED(n == part || n == order.size(), "content", "retrieval of %zu of %zu keys reports %zu", part, order.size(), n); NEED(!b[part] && b[part - 1], "content", "retrieval into a smaller buffer fills another number of keys"); }
        for(int q = 0; q < 2; q++) { WalkCtx w; w.order = &order; w.sorted = q; w.stop = G->chance(1, 2) ? ~0UL : 1 + G->below(order.size() + 1); int r = q ? value_dict_walk_sorted(&d, visit, &w) : value_dict_walk_ordered(&d, visit, &w); bool st = w.stop <= order.size(); NEED(r == (st ? 17 : 0) && w.n == (st ? w.stop : order.size()), "order", "a walk visits %llu of %zu items and returns %d", (unsigned long long) w.n, order.size(), r); }
    };
    for(u64 i = 0; i < N; i++) {
        std::string k = skey(i); VALUE* v = nullptr; dcmp = 0;
        bool f = with_refusal(G->chance(1, 20000) ? (G->chance(1, 2) ? -1 : 1 + (int) G->below(3)) : 0, [&] { v = value_dict_add_(&d, k.data(), k.size()); });
        if(!v) { NEED(f, "spurious-fail", "adding a key failed although no allocation failed"); probe(i); continue; }
        lim("an insertion"); NEED(value_is_new(v), "content", "a new item is not marked so"); value_init_uint64(v, i); in[i] = 1; order.push_back(i);
        if(i % 16 == 0) { u64 q = G->below(N); probe(q); if(in[q]) { std::string z = skey(q); NEED(!value_dict_add_(&d, z.data(), z.size()), "content", "a present key was added again"); } }
    }
    for(u64 i = 0; i < N; i++) probe(i);
    all();
    for(u64 i = 0; i < N; i++) if(in[i] && mix2(SEED, i) % 4) { std::string k = skey(i); NEED(value_dict_remove_(&d, k.data(), k.size()) == 0, "content", "a present key cannot be removed"); in[i] = 0; }
    { std::vector<u64> o; for(u64 i : order) if(in[i]) o.push_back(i); order.swap(o); } all();
    for(u64 i = 0; i < N; i += 9) if(!in[i]) { std::string k = skey(i); VALUE* v = value_dict_get_or_add_(&d, k.data(), k.size()); if(!v) NOMEM(); value_init_uint64(v, i); in[i] = 1; order.push_back(i); } all();
    value_fini(&d);
    say("info dictionary of %llu keys (%s order): retrieval, walks and removals exact\n", (unsigned long long) N, custom ? "custom" : "default");
}
// A readable run of n times the same byte (n may be many GiB) which needs only 2 MiB of memory.
char* alias(u64 n, char c) {
    const u64 W = 1UL << 21; u64 len = (n + W) / W * W; int fd = memfd_create("alias", 0); if(fd < 0) return nullptr;
    char* z = (char*) MAP_FAILED; if(ftruncate(fd, (off_t) W) == 0) z = (char*) mmap(nullptr, len, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(z != (char*) MAP_FAILED) for(u64 o = 0; o < len; o += W) if(mmap(z + o, W, o ? PROT_READ : PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) { munmap(z, len); z = (char*) MAP_FAILED; break; }
    close(fd); if(z == (char*) MAP_FAILED) return nullptr; memset(z, c, W); return z;
}
void unalias(char* z, u64 n) { const u64 W = 1UL << 21; munmap(z, (n + W) / W * W); }
// Keys up to and beyond 4 GiB among short keys which are their prefixes.
void vast_keys(int tier, int round) {
    bool custom = tier && G->chance(1, 3); static const u64 base[] = {1UL << 31, 1UL << 32, 3UL << 31, 1UL << 33};
    const u64 cap = (1UL << 33) + 64; char* z = alias(cap, 'a'); if(!z) { say("info no memory file: keys of many GiB are left out\n"); return; }
    VALUE e; if(value_init_dict_ex(&e, custom ? dcmpf : nullptr, 0)) NOMEM(); std::vector<u64> in; dcmp = 0;
    u64 some = 6 + G->below(6); for(u64 i = 0; i < some; i++) { u64 n = i < 4 ? i : G->below(40); bool have = std::find(in.begin(), in.end(), n) != in.end(); VALUE* v = value_dict_add_(&e, z, n); NEED((v == nullptr) == have, "content", "adding a key of %llu bytes %s", (unsigned long long) n, v ? "succeeded though it is present" : "failed"); if(v) { value_init_uint64(v, n); in.push_back(n); } }
    auto check = [&](const char* when) {
        std::sort(in.begin(), in.end()); std::vector<const VALUE*> b(in.size() + 2); size_t k = value_dict_keys_sorted(&e, b.data(), b.size()); NEED(k == in.size() && value_dict_size(&e) == k, "content", "%s: %zu keys, expected %zu", when, k, in.size());
        for(size_t i = 0; i < k; i++) NEED(value_string_length(b[i]) == in[i], "order", "%s: sorted key %zu has %zu bytes, expected %llu", when, i, value_string_length(b[i]), (unsigned long long) in[i]);
        for(u64 n : in) { VALUE* v = value_dict_get_(&e, z, n); NEED(v && value_uint64(v) == n, "content", "%s: the key of %llu bytes %s", when, (unsigned long long) n, v ? "gives the value of another" : "is not found"); }
    };
    check("before any long key");
    for(u64 b0 : base) for(u64 d : {(u64) 0, (u64) 1, some / 2, (u64) G->below(30)}) { u64 n = b0 + d; NEED(!value_dict_get_(&e, z, n), "content", "a key of %llu bytes is taken for a short one", (unsigned long long) n); NEED(value_dict_remove_(&e, z, n) != 0, "content", "removing a key of %llu bytes removes a short one", (unsigned long long) n); }
    check("after looking for absent long keys");
    u64 want[3] = {(1UL << 31) + G->below(8), (1UL << 32) + G->below(8), (1UL << 32) + 8 + G->below(9)}; int nw = tier ? 3 : round == 0 ? 1 : 2; if(!tier) want[0] = round == 0 ? want[0] : want[1];
    for(int i = 0; i < (tier ? nw : 1); i++) { u64 n = want[i]; VALUE* v = value_dict_add_(&e, z, n); if(!v) { if(!out_of_memory) BAD("spurious-fail", "adding a key of %llu bytes failed although no allocation failed", (unsigned long long) n); break; } NEED(value_is_new(v), "content", "a new item is not marked so"); value_init_uint64(v, n); in.push_back(n); check("after adding a long key"); NEED(!value_dict_get_(&e, z, n - 1) && !value_dict_get_(&e, z, n + 1), "content", "a key of %llu bytes is taken for one of another length", (unsigned long long) n); }
    if(in.back() >= 1UL << 32) {    // the same length, but the last byte is another
        u64 n = in.back(), W = 1UL << 21, o = (n - 1) / W * W; char* y = alias(n, 'a'); if(y) { char* t = (char*) mmap(y + o, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
            if(t != (char*) MAP_FAILED) { memset(t, 'a', W); t[n - 1 - o] = G->chance(1, 2) ? 'A' : 'b'; NEED(!value_dict_get_(&e, y, n) && value_dict_remove_(&e, y, n) != 0, "content", "keys of %llu bytes which differ in their last byte are taken for the same", (unsigned long long) n); }
            unalias(y, n); } }
    while(!in.empty() && in.back() > 1000) { u64 n = in.back(); NEED(value_dict_remove_(&e, z, n) == 0, "content", "the key of %llu bytes cannot be removed", (unsigned long long) n); in.pop_back(); check("after removing a long key"); }
    if(round == 1) {    // a path of one component which is a long key
        z[0] = 'a'; u64 n = (1UL << 32) + 1; char* y = alias(n, 'a'); if(y) { // terminated by remapping its last page
            u64 W = 1UL << 21, o = n / W * W; char* t = (char*) mmap(y + o, W, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
            if(t != (char*) MAP_FAILED) { memset(t, 'a', n - o); t[n - o] = 0; NEED(!value_path(&e, y), "content", "a path whose component has %llu bytes leads to a short key", (unsigned long long) n); NEED(!value_dict_get(&e, y), "content", "a key of %llu bytes is taken for a short one", (unsigned long long) n); }
            unalias(y, n); } }
    value_fini(&e); unalias(z, cap); say("info keys of up to 8 GiB among their prefixes: exact\n");
}
void values(int tier) {
    u64 N = (tier ? 900000 : 300000) + G->below(70000); VALUE a; if(value_init_array(&a)) NOMEM(); std::vector<i64> m;
    auto check = [&](const char* when) { NEED(value_array_size(&a) == m.size(), "content", "%s: the array has %zu items, expected %zu", when, value_array_size(&a), m.size()); VALUE* q = value_array_get_all(&a); for(size_t i = 0; i < m.size(); i++) { VALUE* v = value_array_get(&a, i); if(v != q + i || value_type(v) != VALUE_INT64 || value_int64(v) != m[i]) BAD("content", "%s: item %zu of %zu differs", when, i, m.size()); } NEED(!value_array_get(&a, m.size()) && !value_array_get(&a, m.size() + (1UL << 32) - 5) && !value_array_get(&a, (1UL << 32)) && !value_array_get(&a, ~0UL), "content", "%s: an item behind the end is found", when); };
    while(m.size() < N) { VALUE* v = nullptr; bool f = with_refusal(G->chance(1, 5000) ? -1 : 0, [&] { v = value_array_append(&a); }); if(!v) { NEED(f, "spurious-fail", "append failed although no allocation failed"); continue; } NEED(value_is_new(v), "content", "a new item is not marked so"); i64 x = (i64) G->next(); value_init_int64(v, x); m.push_back(x); }
    check("after appends");
    for(int i = 0; i < 60; i++) { size_t p = G->below(m.size() + 1); VALUE* v = value_array_insert(&a, p); if(!v) NOMEM(); i64 x = (i64) G->next(); NEED(value_is_new(v), "content", "a new item is not marked so"); value_init_int64(v, x); m.insert(m.begin() + p, x);
        p = G->below(m.size()); NEED(value_array_remove(&a, p) == 0, "content", "removal refused"); m.erase(m.begin() + p); }
    check("after insertions and removals");
    for(int i = 0; i < 6; i++) { size_t p = G->below(m.size() / 2), k = i % 2 ? 65536 + G->below(9000) : 1 + G->below(4000); if(p + k > m.size()) break; NEED(value_array_remove_range(&a, p, k) == 0, "content", "removal of a range refused"); m.erase(m.begin() + p, m.begin() + p + k);
        NEED(value_array_remove_range(&a, m.size() - 1, (1UL << 32) + 1) != 0 && value_array_remove(&a, m.size() + (1UL << 32)) != 0, "content", "a range behind the end is removed"); }
    check("after removing ranges");
    // Down through all sizes and up again: every capacity the array shrinks to and grows from.
    for(int c = 0; c < (tier ? 30 : 8); c++) {
        size_t floor = G->chance(1, 3) ? 0 : G->below(70000), step = 1 + G->below(4);
        while(m.size() > floor) { size_t k = G->chance(1, 4) ? m.size() - floor : 1 + G->below(m.size() / (1 + step) + 1); k = std::min(k, m.size() - floor); size_t p = G->below(m.size() - k + 1); if(k == 1 && G->chance(1, 2)) { NEED(value_array_remove(&a, p) == 0, "content", "removal refused"); } else { int r = -1; with_refusal(G->chance(1, 3) ? pick_refusal() : 0, [&] { r = value_array_remove_range(&a, p, k); }); NEED(r == 0, "content", "removal of a range refused"); } m.erase(m.begin() + p, m.begin() + p + k); check("while shrinking"); if(m.size() < 40 && G->chance(1, 2)) break; }
        size_t top = G->chance(1, 3) ? 140000 : 1 + G->below((u64) 1 << (4 + G->below(14)));
        for(size_t k = 0; k < top; k++) { size_t p = G->chance(1, 200) ? G->below(m.size() + 1) : m.size(); VALUE* v = p < m.size() ? value_array_insert(&a, p) : value_array_append(&a); if(!v) NOMEM(); i64 x = (i64) G->next(); value_init_int64(v, x); m.insert(m.begin() + p, x); }
        check("after growing again");
    }
    value_array_clean(&a); m.clear(); check("after cleaning"); value_fini(&a);
    // Items which use every byte of their cell, in arrays of some thousands; emptied while memory is refused.
    for(int c = 0; c < (tier ? 12 : 4); c++) {
        VALUE b; if(value_init_array(&b)) NOMEM(); std::vector<std::string> w; u64 top = G->chance(1, 3) ? 4097 + G->below(30000) : 1 + G->below((u64) 1 << (3 + G->below(12)));
        auto text = [&] { return payload(G->next(), 8 + G->below(12)); };
        auto same = [&](const char* when) { NEED(value_array_size(&b) == w.size(), "content", "%s: the array has %zu items, expected %zu", when, value_array_size(&b), w.size()); for(size_t i = 0; i < w.size(); i++) { VALUE* v = value_array_get(&b, i); if(!v || value_type(v) != VALUE_STRING || value_string_length(v) != w[i].size() || memcmp(value_string(v), w[i].data(), w[i].size())) BAD("content", "%s: text %zu of %zu differs", when, i, w.size()); } };
        for(int half = 0; half < 2; half++) {
            while(w.size() < top) { std::string x = text(); size_t p = G->chance(1, 30) ? G->below(w.size() + 1) : w.size(); VALUE* v = p < w.size() ? value_array_insert(&b, p) : value_array_append(&b); if(!v || value_init_string_(v, x.data(), x.size())) NOMEM(); w.insert(w.begin() + p, x); }
            same("after adding texts");
            for(int i = 0; i < 30 && !w.empty(); i++) {
                if(G->chance(1, 2)) { size_t p = G->chance(1, 2) ? G->below(std::min<size_t>(w.size(), 9)) : G->below(w.size() + 1); std::string x = text(); VALUE* v = value_array_insert(&b, p); if(!v || value_init_string_(v, x.data(), x.size())) NOMEM(); w.insert(w.begin() + p, x); same("after an insertion of a text"); }
                else { size_t p = G->chance(1, 2) ? G->below(std::min<size_t>(w.size(), 9)) : G->below(w.size()), k = G->chance(1, 2) ? 1 : 1 + G->below(std::min<size_t>(w.size() - p, 9)); k = std::min(k, w.size() - p); if(k == 1 && G->chance(1, 2) ? value_array_remove(&b, p) : value_array_remove_range(&b, p, k)) BAD("content", "removal of a range refused"); w.erase(w.begin() + p, w.begin() + p + k); same("after a removal of texts"); }
            }
            if(half == 0) { int r = 0, how = (int) G->below(3); with_refusal(G->chance(2, 3) ? -1 : 0, [&] { if(how == 0) value_array_clean(&b); else if(how == 1) r = value_array_remove_range(&b, 0, w.size()); else while(!w.empty() && r == 0) { r = value_array_remove(&b, w.size() - 1); w.pop_back(); } }); NEED(r == 0, "content", "removal of all items refused"); w.clear(); same("after emptying"); top = 1 + G->below(2 * top); }
        }
        value_fini(&b);
    }
    // Strings at the steps of their length encoding.
    std::vector<u64> ls; for(u64 b : {(u64) 15, (u64) 16, (u64) 1 << 7, (u64) 1 << 14, (u64) 1 << 16, (u64) 1 << 21, (u64) 1 << 28}) for(int d = -2; d <= 2; d++) ls.push_back(b + d);
    for(u64 n : ls) { std::string s = payload(SEED + n, std::min<u64>(n, 1 << 22)); if(n > s.size()) s.resize(n, 'q'); VALUE v; if(value_init_string_(&v, s.data(), n)) NOMEM(); NEED(value_string_length(&v) == n, "content", "a string of %llu bytes reports length %zu", (unsigned long long) n, value_string_length(&v)); const char* q = value_string(&v); NEED(!memcmp(q, s.data(), n) && q[n] == 0, "content", "a string of %llu bytes reads back differently", (unsigned long long) n); value_fini(&v); }
    { u64 n = (1UL << 32) + G->below(70000); if(G->chance(1, 2)) n = (1UL << 32) + G->below(3); char* z = (char*) mmap(nullptr, n + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); VALUE v;
      if(z != MAP_FAILED) { for(u64 o : {(u64) 0, n / 3, (u64) 1 << 31, n - 9}) memcpy(z + o, "marker!!!", 9); int r = value_init_string_(&v, z, n); if(r == 0) { NEED(value_string_length(&v) == n, "content", "a string of %llu bytes reports length %zu", (unsigned long long) n, value_string_length(&v)); const char* q = value_string(&v); for(u64 o : {(u64) 0, n / 3, (u64) 1 << 31, n - 9}) NEED(!memcmp(q + o, "marker!!!", 9), "content", "a string of %llu bytes reads back differently", (unsigned long long) n); NEED(q[n] == 0, "content", "a string of %llu bytes is not terminated", (unsigned long long) n); value_fini(&v); } else { if(!out_of_memory) BAD("spurious-fail", "a string of %llu bytes is refused although no allocation failed", (unsigned long long) n); } munmap(z, n + PG); } }
    say("info array of %llu values and strings up to 4 GiB: read back exactly\n", (unsigned long long) N);
}
// Containers nested very deeply: built by hand or by a path, read from the top, released in different ways.
void deep(int tier) {
    static const u64 ds[] = {9000, 60000, 150000, 400000}; u64 depth = (G->chance(1, 2) ? 400000 : ds[G->below(4)]) * (tier ? 3 : 1) + G->below(5000); bool onlyd = G->chance(1, 3), onlya = !onlyd && G->chance(1, 3); u64 live0 = n_live;
    VALUE root; std::vector<VALUE*> at; std::string path; std::vector<u32> ix; bool trail = G->chance(1, 2);
    auto leafy = [&](VALUE* v, u64 s) { switch(s % 5) { case 0: return value_init_string(v, "a string which is longer than the value itself") == 0; case 1: return value_init_array(v) == 0; case 2: return value_init_dict(v) == 0; case 3: value_init_null(v); return true; default: return value_init_uint64(v, s) == 0; } };
    auto build = [&](VALUE* v, u64 from) {
        for(u64 i = from; i < depth; i++) {
            at.resize(i); at.push_back(v); u64 s = mix2(SEED, i); bool arr = onlya || (!onlyd && (s & 1)); VALUE* w = nullptr; u32 k = 0;
            if(arr) {
                if(value_init_array(v)) NOMEM(); u32 sib = (s >> 8) % 7 == 0 ? 1 + (s >> 16) % 3 : 0; k = sib ? (s >> 24) % (sib + 1) : 0;
                for(u32 j = 0; j <= sib; j++) { VALUE* x = value_array_append(v); if(!x || (j != k && !leafy(x, mix2(s, j)))) NOMEM(); } w = value_array_get(v, k);
            } else {
                bool ord = (s >> 40) % 3 == 0; if(ord ? value_init_dict_ex(v, nullptr, VALUE_DICT_MAINTAINORDER) : value_init_dict(v)) NOMEM(); u32 sib = (s >> 8) % 7 == 0 ? 1 + (s >> 16) % 3 : 0;
                for(u32 j = 0; j < sib; j++) { VALUE* x = value_dict_add(v, j == 0 ? "a" : j == 1 ? "x" : "a key which is longer than a value"); if(!x || !leafy(x, mix2(s, j))) NOMEM(); }
                w = value_dict_add(v, "k"); 
            }
            if(!w) NOMEM(); v = w; (void) k;
        }
        at.resize(depth); at.push_back(v); value_init_int64(v, (i64) SEED);
    };
    auto down = [&](const char* when) {
        // from the top by accessors, and by one path of all the steps
        std::string p; VALUE* v = &root; char b[24];
        for(u64 i = 0; i < depth; i++) { NEED(v == at[i], "content", "%s: level %llu of %llu is elsewhere", when, (unsigned long long) i, (unsigned long long) depth);
            if(value_type(v) == VALUE_ARRAY) { u64 n = value_array_size(v); VALUE* all = value_array_get_all(v); u64 k = (u64) (at[i + 1] - all); NEED(k < n, "content", "%s: item of level %llu is not in its array", when, (unsigned long long) i); if(i % 2) snprintf(b, sizeof b, "[%llu]", (unsigned long long) k); else snprintf(b, sizeof b, "[-%llu]", (unsigned long long) (n - k)); p += b; v = value_array_get(v, k); }
            else { NEED(value_type(v) == VALUE_DICT, "content", "%s: level %llu is no container", when, (unsigned long long) i); p += i ? "/k" : "k"; v = value_dict_get(v, "k"); } }
        NEED(v && value_type(v) == VALUE_INT64 && value_int64(v) == (i64) SEED, "content", "%s: the innermost of %llu values differs", when, (unsigned long long) depth);
        NEED(value_path(&root, p.c_str()) == v, "content", "%s: a path of %llu steps leads elsewhere", when, (unsigned long long) depth);
    };
    build(&root, 0); down("after building");
    if(trail) { u64 i = G->below(depth / 2); value_fini(at[i]); build(at[i], i); down("after rebuilding the inner part"); }
    const char* how = "";
    switch(G->below(4)) {
        case 0: how = "fini"; value_fini(&root); break;
        case 1: how = "clean"; if(value_type(&root) == VALUE_ARRAY) value_array_clean(&root); else value_dict_clean(&root); value_fini(&root); break;
        case 2: { how = "removal"; u64 i = G->below(std::min<u64>(depth - 1, 3)); VALUE* v = at[i]; if(value_type(v) == VALUE_ARRAY) NEED(value_array_remove(v, (size_t) (at[i + 1] - value_array_get_all(v))) == 0, "content", "removal refused"); else NEED(value_dict_remove(v, "k") == 0, "content", "removal refused"); NEED(n_live < live0 + 60, "footprint", "after the removal of %llu nested values %llu blocks are still held", (unsigned long long) depth, (unsigned long long) (n_live - live0)); value_fini(&root); break; }
        default: how = "fini of the halves"; value_fini(at[depth / 2]); value_init_null(at[depth / 2]); value_fini(&root); break;
    }
    NEED(n_live == live0, "leak", "after %s of %llu nested values %llu blocks are still held", how, (unsigned long long) depth, (unsigned long long) (n_live - live0));
    say("info %llu values nested in each other: exact, released by %s\n", (unsigned long long) depth, how);
}
void paths(int tier) {
    VALUE root; if(value_init_dict(&root)) NOMEM(); VALUE* a = value_dict_add(&root, "list"); if(!a || value_init_array(a)) NOMEM();
    u64 N = 150000 + G->below(100000); for(u64 i = 0; i < N; i++) { VALUE* v = value_array_append(a); if(!v) NOMEM(); value_init_uint64(v, i * 3); }
    for(int i = 0; i < 4000; i++) { u64 k = i < 100 ? 65500 + i : G->below(N + 200); char p[80]; bool neg = G->chance(1, 2); snprintf(p, sizeof p, neg ? "list/[-%llu]" : "list/[%llu]", (unsigned long long) k); VALUE* v = value_path(&root, p); bool ok = neg ? k >= 1 && k <= N : k < N; if(neg && k == 0) continue; NEED((v != nullptr) == ok, "content", "path %s into %llu items is %s", p, (unsigned long long) N, v ? "found" : "not found"); if(v) NEED(value_uint64(v) == (neg ? N - k : k) * 3 && v == value_array_get(a, neg ? N - k : k), "content", "path %s gives another item", p); if(ok) NEED(value_build_path(&root, p) == v, "content", "building %s gives another item than resolving it", p); }
    // Deep paths and long keys.
    u64 depth = G->chance(1, 8) ? 150000 + G->below(20000) : 2000 + G->below(2000); std::string p; std::vector<std::string> c; for(u64 i = 0; i < depth; i++) { std::string k = i % 500 == 499 && i < 4000 ? std::string(70000 + G->below(9000), (char) ('a' + i % 26)) : "n" + std::to_string(G->below(1000)); c.push_back(k); p += std::string(1 + G->below(3), '/') + k; }
    VALUE* v = nullptr; bool f = with_refusal(G->chance(1, 2) ? 1 + (int) G->below(depth * 3) : 0, [&] { v = value_build_path(&root, p.c_str()); });
    if(!v) { NEED(f, "spurious-fail", "building a path of %llu components failed although no allocation failed", (unsigned long long) depth); v = value_build_path(&root, p.c_str()); }
    NEED(v && value_is_new(v), "content", "a path of %llu components cannot be built", (unsigned long long) depth); value_init_int32(v, 4711);
    NEED(value_path(&root, p.c_str()) == v, "content", "a path of %llu components is not found after it was built", (unsigned long long) depth);
    VALUE* w = &root; for(auto& k : c) { w = value_dict_get_(w, k.data(), k.size()); NEED(w, "content", "a component of a built path is missing"); } NEED(w == v, "content", "a built path leads elsewhere");
    value_fini(&root);
    say("info paths into %llu items and of %llu components (%zu characters): exact\n", (unsigned long long) N, (unsigned long long) depth, p.size());
}

// ------------------------------------------------------------------- chunks
// Blocks of several GiB, filled with pieces of any size.
void vast_chunks(int tier) {
    for(int r = 0; r < (tier ? 6 : 2); r++) {
        size_t b = r % 2 == 0 ? (1UL << 32) + 1 + G->below(1UL << 33) : (1UL << 31) + G->below(1UL << 31); MEMCHUNK* c = (MEMCHUNK*) malloc(sizeof(MEMCHUNK)); memchunk_init(c, b);
        struct P { u8* p; size_t n; u64 tag; }; std::vector<P> v; u64 a0 = n_alloc, bytes = 0, bigs = 0;
        auto fill = [&](P& x, bool w) { u64 k[2] = {mix2(x.tag, 1), mix2(x.tag, 2)}; size_t z = std::min<size_t>(8, x.n); u8* s[2] = {x.p, x.p + x.n - z}; if(w) for(int q = 0; q < (x.n >= 16 ? 2 : 1); q++) memcpy(s[q], &k[q], z); else for(int q = 0; q < (x.n >= 16 ? 2 : 1); q++) if(memcmp(s[q], &k[q], z)) BAD("content", "bytes of a piece of %zu bytes in blocks of %zu changed", x.n, b); };
        for(int i = 0; i < 400; i++) {
            size_t n = 1 + G->below((u64) 1 << (1 + G->below(33))); if(bytes > 20 * b) n = 1 + G->below(100000); n = std::min(n, b / 4); if(i % 40 == 39 && bytes < 20 * b) n = b / 4 + 1 + G->below(b);
            void* p = nullptr; bool f = with_refusal(G->chance(1, 20) ? -1 : 0, [&] { p = memchunk_alloc(c, n); });
            if(!p) { NEED(f, "spurious-fail", "a request for %zu bytes in blocks of %zu failed although no allocation failed", n, b); continue; }
            if(n > b / 4) bigs++; P x{(u8*) p, n, mix2(SEED, i)}; fill(x, true); v.push_back(x); bytes += n;
        }
        for(auto& x : v) fill(x, false);
        std::sort(v.begin(), v.end(), [](const P& x, const P& y) { return x.p < y.p; });
        for(size_t i = 1; i < v.size(); i++) NEED(v[i - 1].p + v[i - 1].n <= v[i].p, "overlap", "a piece of %zu bytes overlaps the next, in blocks of %zu", v[i - 1].n, b);
        u64 lim = 2 * (bigs + bytes / (b - b / 4)) + 10; NEED(n_alloc - a0 <= lim, "economy", "%zu pieces of %llu bytes took %llu blocks of %zu, expected at most %llu", v.size(), (unsigned long long) bytes, (unsigned long long) (n_alloc - a0), b, (unsigned long long) lim);
        memchunk_fini(c); NEED(n_live == 0, "leak", "%llu blocks remain allocated after finishing", (unsigned long long) n_live); free(c);
    }
}
void chunks(int tier) {
    static const size_t bs[] = {0, 64, 1000, 4096, 65536, 1 << 20}; size_t b = bs[G->below(6)]; MEMCHUNK* c = (MEMCHUNK*) malloc(sizeof(MEMCHUNK)); memchunk_init(c, b); if(!b) b = 1024;
    struct P { u8* p; size_t n; u32 tag; }; std::vector<P> v; u64 N = (tier ? 3000000 : 800000), a0 = n_alloc, bytes = 0, huge = 0; u64 bigs = 0;
    auto fill = [&](P& x, bool w) { size_t s[6] = {0, 1, 2, x.n / 2, x.n ? x.n - 2 : 0, x.n - 1}; for(size_t o : s) if(o < x.n) { u8 k = (u8) (x.tag * 31 + o % 7); if(w) x.p[o] = k; else if(x.p[o] != k) BAD("content", "byte %zu of a piece of %zu bytes changed", o, x.n); } };
    for(u64 i = 0; i < N; i++) {
        size_t n = i % 64 == 63 ? G->below(b + 1) : G->below(std::min<size_t>(b / 4, 40) + 1); if(i == N / 3 || i == N / 2) n = (1UL << 32) + G->below(5000); else if(i == N / 4) n = (1UL << 31) + G->below(5000);
        void* p = nullptr; bool f = with_refusal(G->chance(1, 20000) ? -1 : 0, [&] { p = memchunk_alloc(c, n); });
        if(!p) { NEED(f, "spurious-fail", "a request for %zu bytes failed although no allocation failed", n); continue; }
        if(n > b / 4) bigs++; if(n > LARGE) huge++;
        P x{(u8*) p, n, (u32) i}; if(n) { fill(x, true); v.push_back(x); bytes += n; }
    }
    for(auto& x : v) fill(x, false);
    std::sort(v.begin(), v.end(), [](const P& x, const P& y) { return x.p < y.p; });
    for(size_t i = 1; i < v.size(); i++) NEED(v[i - 1].p + v[i - 1].n <= v[i].p, "overlap", "a piece of %zu bytes overlaps the next", v[i - 1].n);
    u64 small = 0; for(auto& x : v) if(x.n <= b / 4) small += x.n + (b > 200 ? 16 : 0); u64 lim = 2 * (bigs + small / (b - b / 4)) + 300; if(b <= 200) lim = ~0UL; NEED(n_alloc - a0 <= lim, "economy", "%zu pieces took %llu blocks, expected at most %llu", v.size(), (unsigned long long) (n_alloc - a0), (unsigned long long) lim);
    u64 live = n_live; memchunk_fini(c); NEED(n_live < live && n_live == 0, "leak", "%llu blocks remain allocated after finishing", (unsigned long long) n_live); free(c);
    vast_chunks(tier);
    say("info chunk allocator: %zu pieces, %llu of several GiB, disjoint and stable\n", v.size(), (unsigned long long) huge);
}

// -------------------------------------------------------------- command line
struct Ev { int id; const char* arg; bool null; }; struct CL { std::vector<Ev>* e; size_t n; size_t stop; };
int on_opt(int id, const char* arg, void* u) {
    CL* c = (CL*) u; NEED(c->n < c->e->size(), "result", "more events than the command line holds"); Ev& e = (*c->e)[c->n];
    NEED(id == e.id, "result", "event %zu has id %d, expected %d", c->n, id, e.id); NEED(e.null ? arg == nullptr : arg && !strcmp(arg, e.arg), "result", "event %zu has another argument than expected", c->n);
    c->n++; return c->n == c->stop ? 99 : 0;
}
void cmdlines(int tier) {
    std::vector<std::string> names; std::vector<CMDLINE_OPTION> o; int nl = 3000 + (int) G->below(3000); names.reserve(nl + 9);
    o.push_back({'a', "alpha", 1, 0}); o.push_back({'b', nullptr, 2, 0}); o.push_back({'o', "output", 3, CMDLINE_OPTFLAG_REQUIREDARG}); o.push_back({0, "-D", 4, CMDLINE_OPTFLAG_COMPILERLIKE});
    for(int i = 0; i < nl; i++) { char b[40]; snprintf(b, sizeof b, "x%05dy", i); names.push_back(b); o.push_back({0, names.back().c_str(), 1000 + i * 100000, (unsigned) (i % 2 ? CMDLINE_OPTFLAG_REQUIREDARG : 0)}); } 
    std::string lname = "y" + std::string(65536 + G->below(9), 'n') + "z", cname = "+" + std::string(65536 + G->below(9), 'c') + ":"; o.push_back({0, lname.c_str(), 7, CMDLINE_OPTFLAG_OPTIONALARG}); bool plus = G->chance(1, 2); if(plus) o.push_back({0, cname.c_str(), 8, CMDLINE_OPTFLAG_COMPILERLIKE});
    o.push_back({0, nullptr, 0, 0});
    std::vector<Ev> e; std::vector<char*> av; std::vector<std::string*> hold; auto S = [&](const std::string& s) { std::string* p = new std::string(s); hold.push_back(p); return (char*) p->c_str(); };
    av.push_back(S("prog")); int n = 80000 + (int) G->below(50000); u64 groups = 0;
    for(int i = 0; i < 8; i++) { char* t = S("--" + lname + (i & 1 ? "=v" : "")); av.push_back(t); e.push_back({7, i & 1 ? t + 3 + lname.size() : nullptr, !(i & 1)}); char* u = S("--" + lname.substr(0, 1 + G->below(lname.size() - 1))); av.push_back(u); e.push_back({CMDLINE_OPTID_UNKNOWN, u, false}); if(plus) { char* w = S(cname + (i & 1 ? "qq" : "")); av.push_back(w); if(!(i & 1)) av.push_back(w = S("value")); e.push_back({8, i & 1 ? w + cname.size() : w, false}); } }
    for(int i = 0; i < n; i++) switch(G->below(i % 50 == 0 ? 9 : 7)) {
        case 0: { char* s = S("file" + std::to_string(i)); av.push_back(s); e.push_back({0, s, false}); break; }
        case 1: av.push_back(S("-a")); e.push_back({1, nullptr, true}); break;
        case 2: { char* s = S("v" + std::to_string(i)); av.push_back(S("-o")); av.push_back(s); e.push_back({3, s, false}); break; }
        case 3: { char* s = S("-Dname=" + std::to_string(i)); av.push_back(s); e.push_back({4, s + 2, false}); break; }
        case 4: { char* s = S("--output=" + std::to_string(i)); av.push_back(s); e.push_back({3, s + 9, false}); break; }
        case 5: { char* s = S("-o" + std::to_string(i)); av.push_back(s); e.push_back({3, s + 2, false}); break; }
        case 6: { char* s = S("-"); av.push_back(s); e.push_back({0, s, false}); break; }
        case 7: { int k = (int) G->below(nl); if(k % 2) { char* s = S("--" + names[k] + "=q" + std::to_string(i)); av.push_back(s); e.push_back({1000 + k * 100000, s + 3 + names[k].size(), false}); } else { av.push_back(S("--" + names[k])); e.push_back({1000 + k * 100000, nullptr, true}); } break; }
        default: if(groups < 4) { groups++; std::string g = "-"; int k = 60000 + (int) G->below(60000); for(int j = 0; j < k; j++) { bool x = G->chance(1, 2); g += x ? 'a' : 'b'; e.push_back({x ? 1 : 2, nullptr, true}); } av.push_back(S(g)); }
    }
    av.push_back(S("--")); for(int i = 0; i < 70000; i++) { char* s = S(i % 3 ? "-a" : "--output"); av.push_back(s); e.push_back({0, s, false}); }
    size_t argc = av.size(); av.push_back(nullptr);
    for(int q = 0; q < 3; q++) { CL c{&e, 0, q == 1 ? e.size() - G->below(60000) : q == 2 ? 1 + (size_t) G->below(e.size()) : 0}; int r = cmdline_read(o.data(), (int) argc, av.data(), on_opt, &c); NEED(c.stop ? r == 99 && c.n == c.stop : r == 0 && c.n == e.size(), "result", "parsing %zu arguments reports %zu of %zu events and returns %d", argc, c.n, e.size(), r); }
    for(auto* p : hold) delete p;
    if(!quiet) {    // one argument of more than 4 GiB
        size_t PATN = 16u << 20, L = (1UL << 32) + G->below(20), tot = up(L + 64); int fd = memfd_create("a", 0); if(fd < 0 || ftruncate(fd, PATN)) NOMEM();
        char* w = (char*) mmap(nullptr, PATN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if(w == MAP_FAILED) NOMEM(); memset(w, 'a', PATN);
        char* d = (char*) mmap(nullptr, tot + PATN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(d == MAP_FAILED) NOMEM();
        for(size_t x = PATN; x + PATN < L; x += PATN) if(mmap(d + x, PATN, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) NOMEM();
        memset(d, 'a', PATN); d[0] = d[1] = '-'; for(size_t x = L; x > 0 && d[x - 1] == 0; x--) d[x - 1] = 'a'; strcpy(d + L, "=text");
        char pn[5] = "prog"; char* v[3] = {pn, d, nullptr}; int cnt = 0; int r = cmdline_read(o.data(), 2, v, [](int id, const char* arg, void* u) { size_t k = arg ? strnlen(arg, 5000) : 0; NEED(id == CMDLINE_OPTID_UNKNOWN && k > 16 && strspn(arg, "-") == 2 && strspn(arg + 2, "a") >= std::min<size_t>(k, 4096) - 2, "result", "an unknown option of more than 4 GiB is reported as \"%.40s\"", arg ? arg : ""); ++*(int*) u; return 0; }, &cnt); NEED(r == 0 && cnt == 1, "result", "parsing an unknown option of %zu characters reports %d events and returns %d", L, cnt, r);
        munmap(d, tot + PATN); munmap(w, PATN); close(fd);
    }
    say("info command line of %zu arguments and %d options: %zu events exact\n", argc, nl, e.size());
}

// ------------------------------------------------------------------- stream
struct Sink { IStream is; u64 got; const u8* expect; u64 limit; bool fail; };
HRESULT sink_write(IStream* s, const void* b, ULONG n, ULONG* w) { Sink* k = (Sink*) s; if(k->fail) { if(w) *w = 0; return STG_E_MEDIUMFULL; } ULONG t = (ULONG) std::min<u64>(n, k->limit); NEED((const u8*) b == k->expect || !memcmp(b, k->expect, std::min<u64>(t, 1 << 20)), "content", "copying delivers other bytes"); k->got += t; k->expect += t; if(k->limit != ~0UL) k->limit -= t; if(w) *w = t; return S_OK; }
void streams(int tier) {
    size_t PATN = 1 << 20, n = (3UL << 30) + G->below(1UL << 30) - (G->chance(1, 3) ? 0 : 1 << 20); int fd = memfd_create("p", 0); if(fd < 0 || ftruncate(fd, PATN)) NOMEM();
    u8* w = (u8*) mmap(nullptr, PATN, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); if(w == MAP_FAILED) NOMEM(); for(size_t i = 0; i < PATN; i += 8) { u64 v = mix2(SEED, i); memcpy(w + i, &v, 8); }
    size_t tot = (n + PATN - 1) / PATN * PATN; u8* d = (u8*) mmap(nullptr, tot + PATN, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(d == MAP_FAILED) NOMEM();
    for(size_t o = 0; o < tot; o += PATN) if(mmap(d + o, PATN, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) NOMEM();
    IStream* s = nullptr; if(memstream_create(d, (ULONG) n, &s) != S_OK || !s) { if(out_of_memory) NOMEM(); BAD("spurious-fail", "a stream over %zu bytes is refused", n); }
    IStreamVtbl vt; memset(&vt, 0, sizeof vt); vt.Write = sink_write; u64 pos = 0; std::vector<u8> buf(1 << 20); u64 ops = 0;
    auto where = [&](const char* when) { LARGE_INTEGER z; z.QuadPart = 0; ULARGE_INTEGER p; p.QuadPart = 0; NEED(IStream_Seek(s, z, STREAM_SEEK_CUR, &p) == S_OK && p.QuadPart == pos, "content", "%s: the position is %llu, expected %llu", when, (unsigned long long) p.QuadPart, (unsigned long long) pos); ops++; };
    for(int i = 0; i < 4000; i++) switch(G->below(5)) {
        case 0: case 1: { u64 c; switch(G->below(5)) { case 0: c = 0; break; case 1: c = 1UL << 31; break; case 2: c = n; break; case 3: c = 1UL << 32; break; default: c = G->below(n); } i64 t = (i64) c + G->range(-100, 100); int o = (int) G->below(3); LARGE_INTEGER x; x.QuadPart = t - (o == 0 ? 0 : o == 1 ? (i64) pos : (i64) n); ULARGE_INTEGER p; HRESULT h = IStream_Seek(s, x, o, &p);
            bool ok = t >= 0 && t <= 0xffffffffll; NEED(SUCCEEDED(h) == ok, "result", "seeking to %lld %s", (long long) t, ok ? "fails" : "is accepted"); if(ok) pos = (u64) t; NEED(p.QuadPart == pos, "result", "seeking reports position %llu, expected %llu", (unsigned long long) p.QuadPart, (unsigned long long) pos); where("after a seek"); break; }
        case 2: { ULONG k = (ULONG) G->below(1 + (1 << G->below(20))), got = 77; u64 avail = pos < n ? n - pos : 0; if(G->chance(1, 4) && avail < buf.size()) k = 0xffffffffu - (ULONG) G->below(100); u64 exp = std::min<u64>(k, avail); HRESULT h = IStream_Read(s, buf.data(), k, &got); NEED(got == exp && SUCCEEDED(h), "result", "reading %u bytes at %llu of %zu gives %u", k, (unsigned long long) pos, n, got); NEED(!memcmp(buf.data(), d + pos, exp), "content", "reading at %llu gives other bytes", (unsigned long long) pos); pos += exp; where("after a read"); break; }
        case 3: { Sink k; k.is.lpVtbl = &vt; k.got = 0; k.expect = d + std::min<u64>(pos, n); k.limit = G->chance(1, 2) ? ~0UL : G->below(1UL << 32); k.fail = G->chance(1, 6); ULARGE_INTEGER c, r, wr; r.QuadPart = wr.QuadPart = 5; switch(G->below(4)) { case 0: c.QuadPart = ~0UL; break; case 1: c.QuadPart = (1UL << 32) + G->below(9); break; case 2: c.QuadPart = G->below(n); break; default: c.QuadPart = (1UL << 31) + G->below(9); } u64 exp = std::min<u64>(std::min<u64>(c.QuadPart, pos < n ? n - pos : 0), k.limit);
            HRESULT h = IStream_CopyTo(s, &k.is, c, &r, &wr); if(k.fail) { if(FAILED(h)) { LARGE_INTEGER x; x.QuadPart = (i64) pos; IStream_Seek(s, x, STREAM_SEEK_SET, nullptr); } else NEED(exp == 0, "result", "a failing destination is not reported"); break; }
            NEED(SUCCEEDED(h) && k.got == exp && r.QuadPart == exp && wr.QuadPart == exp, "result", "copying %llu bytes at %llu of %zu moves %llu and reports %llu", (unsigned long long) c.QuadPart, (unsigned long long) pos, n, (unsigned long long) k.got, (unsigned long long) wr.QuadPart); pos += exp; where("after copying"); break; }
        default: if(i % 8 == 0) { IStream* o = nullptr; NEED(IStream_Clone(s, &o) == S_OK && o, "result", "cloning fails"); std::swap(s, o); NEED(IStream_Release(o) == 0, "result", "a stream outlives its last reference"); where("after cloning"); STATSTG st; NEED(IStream_Stat(s, &st, 1) == S_OK && st.cbSize.QuadPart == n, "result", "the size is reported as %llu, expected %zu", (unsigned long long) st.cbSize.QuadPart, n); }
    }
    NEED(IStream_Release(s) == 0 && n_live == 0, "result", "the stream is not destroyed with its last reference");
    munmap(d, tot + PATN); munmap(w, PATN); close(fd);
    say("info stream over %zu bytes: %llu seeks, reads and copies exact\n", n, (unsigned long long) ops);
}

// ---------------------------------------------------- memory against content
// One container at a time is driven through rungs of growth and shrinkage up to
// hundreds of thousands of items (or GiBs of bytes); after each rung the memory
// held and the requests made are compared with the content.
struct Foot {
    const char* name; u64 unit, top; bool linear;       // bytes per item; linear: some requests per item are expected
    std::function<bool(u64)> add; std::function<void(u64)> del; std::function<void()> fini; std::function<u64(u64)> drop;   // drop: removes down to so many at once, 0 if it cannot
};
void footprint(Foot f) {
    u64 n = 0, phases = 0, worst = 0; u64 base = 0;      // nothing else is alive
    auto lg = [](u64 x) { u64 r = 0; while(x > 1) { x >>= 1; r++; } return r; };
    auto judge = [&](u64 q0, u64 moved, bool refused, const char* when) {
        u64 held = n_bytes - base, lim = 8 * n * f.unit + 4096; phases++; if(n) worst = std::max(worst, held * 100 / (n * f.unit + 512));
        NEED(held <= lim, "footprint", "%s %s: %llu bytes are held for %llu items of %llu bytes", f.name, when, (unsigned long long) held, (unsigned long long) n, (unsigned long long) f.unit);
        if(!refused) { u64 q = n_alloc - q0, ql = f.linear ? 16 + 6 * moved : 16 + 3 * lg((n + moved) * f.unit + 2); NEED(q <= ql, "requests", "%s %s: %llu requests to the allocator for %llu items, %llu present", f.name, when, (unsigned long long) q, (unsigned long long) moved, (unsigned long long) n); }
    };
    int rungs = 10;
    for(int r = 0; r < rungs; r++) {
        u64 to = r == 0 || G->chance(1, 4) ? f.top - G->below(f.top / 8) : f.top >> G->below(lg(f.top)); u64 q0 = n_alloc, n0 = n; bool refused = false; u64 r0 = n_refused;
        if(to > n) {
            while(n < to) {
                bool ok = false; bool rf = with_refusal(G->chance(1, 400000) ? -1 : 0, [&] { ok = f.add(n); });
                if(ok) n++; else { if(out_of_memory) NOMEM(); NEED(rf, "spurious-fail", "%s: an addition to %llu items failed although no allocation failed", f.name, (unsigned long long) n); }
            }
            judge(q0, n - n0, n_refused > r0, "after growth");
        } else {
            u64 k = f.drop && G->chance(1, 2) ? f.drop(to) : 0;
            if(k) n = to; else while(n > to) { refused |= with_refusal(n > to + 1 && G->chance(1, 400000) ? -1 : 0, [&] { f.del(n); }); n--; }
            judge(q0, n0 - n, refused, "after removals");
        }
        if(n >= 64) {     // back and forth around this size
            q0 = n_alloc; u64 k = 1 + G->below(n / 8), moved = 0; bool up1 = G->chance(1, 2); int rounds = 2 + (int) G->below(4); if(k * rounds > 200000) k = 200000 / rounds;
            for(int j = 0; j < rounds; j++) { for(u64 i = 0; i < k; i++) { if(up1) { if(!f.add(n)) NOMEM(); n++; } else { f.del(n); n--; } moved++; } for(u64 i = 0; i < k; i++) { if(up1) { f.del(n); n--; } else { if(!f.add(n)) NOMEM(); n++; } moved++; } }
            judge(q0, f.linear ? moved : 1, false, "after churn at a steady size");
        }
    }
    f.fini(); NEED(n_bytes == base, "footprint", "%s after fini: %llu bytes are still held", f.name, (unsigned long long) (n_bytes - base));
    say("info %s: %llu phases up to %llu items of %llu bytes, at most %llu%% of the content held\n", f.name, (unsigned long long) phases, (unsigned long long) f.top, (unsigned long long) f.unit, (unsigned long long) worst);
}
void footprints(int tier) {
    u64 M = tier ? 4 : 1;
    { static const u64 ps[] = {1, 7, 100, 4096, 65536, 1 << 20}; u64 pc = ps[G->below(6)]; u8* d = (u8*) calloc(1, pc); void* b = malloc(shb_sizeof()); shb_init(b);
      footprint({"buffer", pc, std::min<u64>(800000 * M, (2UL << 30) / pc), false, [&](u64) { return shb_append(b, d, pc) == 0; }, [&](u64 n) { shb_remove(b, (n - 1) * pc, G->chance(1, 2) ? pc : ~0UL); }, [&] { shb_fini(b); }, [&](u64 to) -> u64 { bool front = (to > 0) && shb_size(b) < (64u << 20) && G->chance(1, 2); u64 k = shb_size(b) - to * pc; shb_remove(b, front ? 0 : to * pc, k); return 1; }});
      free(b); free(d); }
    { int t = (int) G->below(9); const SHA& A = sh_arrays[t]; void* b = malloc(shb_sizeof()); A.init(b);
      footprint({"typed array", A.elem, 600000 * M, false, [&](u64 n) { return A.append(b, n) == 0; }, [&](u64 n) { A.remove(b, n - 1); }, [&] { A.fini(b); }, [&](u64 to) -> u64 { u64 n = A.size(b); A.remove_n(b, to ? G->below(to) : 0, n - to); return 1; }});
      free(b); }
    { VALUE v; if(value_init_array(&v)) NOMEM(); 
      footprint({"value array", sizeof(VALUE), 400000 * M, false, [&](u64 n) { VALUE* x = value_array_append(&v); if(x) value_init_uint64(x, n); return x != nullptr; }, [&](u64 n) { value_array_remove(&v, n - 1); }, [&] { value_fini(&v); }, [&](u64 to) -> u64 { u64 n = value_array_size(&v); value_array_remove_range(&v, to ? G->below(to) : 0, n - to); return 1; }}); }
    { VALUE v; bool ord = G->chance(1, 2), back = G->chance(1, 2); if(ord ? value_init_dict_ex(&v, nullptr, VALUE_DICT_MAINTAINORDER) : value_init_dict(&v)) NOMEM(); auto key = [&](u64 i, char* k) { return (size_t) snprintf(k, 40, "%llu-key-%llu", (unsigned long long) (mix2(i, 2) % 1000), (unsigned long long) i); };
      // The oldest or the newest goes first.
      u64 lo = 0, hi = 0;
      footprint({"dictionary", 96, 60000 * M, true, [&](u64) { char k[40]; size_t l = key(hi, k); VALUE* x = value_dict_add_(&v, k, l); if(x) { value_init_uint64(x, hi); hi++; } return x != nullptr; }, [&](u64) { char k[40]; size_t l = back ? key(--hi, k) : key(lo++, k); NEED(value_dict_remove_(&v, k, l) == 0, "content", "a present key is not found"); }, [&] { value_fini(&v); }, nullptr}); }
    { HTABLE* t = (HTABLE*) malloc(sizeof(HTABLE)); sh_htable_init(t); u64 top = 300000 * M; std::vector<HN> v(top + top / 8 + 8); bool back = G->chance(1, 2); u64 lo = 0, cnt = 0; u64 R = v.size(); hmode = 0;
      footprint({"hash table", sizeof(void*), top, false, [&](u64) { HN& x = v[(lo + cnt) % R]; x.key = (lo + cnt) % R; bool ok = htable_insert(t, &x.node, hcmpf, hhash) == 0; if(ok) cnt++; return ok; }, [&](u64) { HN& x = back ? v[(lo + cnt - 1) % R] : v[lo]; if(!back) lo = (lo + 1) % R; cnt--; NEED(htable_remove(t, &x.node, hcmpf, hhash) == &x.node, "content", "a present node is not found"); }, [&] { htable_fini(t, nullptr); }, nullptr});
      free(t); }
}
}
int large_main(const char* id, u64 seed, int tier, int fd) {
    out_fd = fd; SEED = seed; Rng g(mix2(seed, 4242)); G = &g;
    static const struct { const char* id; int quick, deep; } R[] = {{"C01", 5, 40}, {"C02", 6, 30}, {"C03", 4, 8}, {"C04", 2, 5}, {"C06", 1, 3}, {"C07", 2, 5}, {"C08", 20, 200}, {"C10", 6, 20}, {"C12", 8, 60}, {"C15", 20, 200}, {"C24", 4, 30}};
    int rounds = 1; for(auto& r : R) if(!strcmp(id, r.id)) rounds = tier ? r.deep : r.quick;
    for(int i = 0; i < rounds; i++) {
        quiet = i > 0; if(i) { SEED = mix2(seed, 100 + i); g = Rng(mix2(SEED, 4242)); }
        if(!strcmp(id, "C01")) { ladders(tier); buffers(tier); }
        else if(!strcmp(id, "C02")) { stacks(tier); arrays(tier); }
        else if(!strcmp(id, "C03")) tables(tier);
        else if(!strcmp(id, "C04")) trees(tier, i);
        else if(!strcmp(id, "C06")) { values(tier); deep(tier); deep(tier); }
        else if(!strcmp(id, "C07")) { dicts(tier, i); vast_keys(tier, i & 1); }
        else if(!strcmp(id, "C08")) { paths(tier); if(i % 4 == 0) deep(tier); }
        else if(!strcmp(id, "C10")) chunks(tier);
        else if(!strcmp(id, "C12")) cmdlines(tier);
        else if(!strcmp(id, "C15")) streams(tier);
        else if(!strcmp(id, "C24")) footprints(tier);
        else return 3;
    }
    quiet = false; if(rounds > 1) say("info %d further histories of this kind\n", rounds - 1);
    return 0;
}
