// Scenarios with objects of several GiB, beyond what the simulated heap holds.
// They run uninstrumented copies of the library code (symbols fast_*), in a
// forked child so that a crash or a hang is an observation too.
#include "util.h"
#include "props.h"
#include "encode/base64.h"
#include <limits.h>
#include <thread>
#include <algorithm>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <time.h>
#include <stdarg.h>
#include <signal.h>
#include <sys/resource.h>

extern "C" {
u32 fast_crc32(const void*, size_t);
u32 fast_fnv1a_32(u32, const void*, size_t);
u64 fast_fnv1a_64(u64, const void*, size_t);
int fast_base64_encode(const void*, unsigned, char*, unsigned, const BASE64_OPTIONS*);
int fast_base64_decode(const char*, unsigned, void*, unsigned, const BASE64_OPTIONS*);
int fast_hex_encode(const void*, unsigned, char*, unsigned, int);
int fast_hex_decode(const char*, unsigned, void*, unsigned);
}
// A view of `total` bytes which repeats one seeded pattern of 16 MiB.
enum : size_t { PAT = 16u << 20 };
static const u8* big_view(u64 seed, size_t total) {
    int fd = memfd_create("pattern", 0);
    if(fd < 0) { FILE* f = tmpfile(); if(!f) return nullptr; fd = fileno(f); }
    if(ftruncate(fd, PAT)) return nullptr;
    u64* w = (u64*) mmap(nullptr, PAT, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
    if(w == MAP_FAILED) return nullptr;
    u64 v = mix2(seed, 5); for(size_t i = 0; i < PAT / 8; i++) { v = v * 6364136223846793005ull + 1442695040888963407ull; w[i] = v ^ (v >> 29); }
    size_t n = (total + PAT - 1) / PAT * PAT;
    u8* base = (u8*) mmap(nullptr, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(base == MAP_FAILED) return nullptr;
    for(size_t o = 0; o < n; o += PAT) if(mmap(base + o, PAT, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return nullptr;
    return base;
}
static u32 crc_ref(const u8* p, size_t n) {     // slicing-by-8, tables computed here
    static u32 t[8][256];
    for(u32 i = 0; i < 256; i++) { u32 c = i; for(int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1; t[0][i] = c; }
    for(int j = 1; j < 8; j++) for(u32 i = 0; i < 256; i++) t[j][i] = t[0][t[j - 1][i] & 255] ^ (t[j - 1][i] >> 8);
    u32 c = ~0u;
    while(n >= 8) { u64 x; memcpy(&x, p, 8); x ^= c; c = 0; for(int j = 0; j < 8; j++) c ^= t[7 - j][(x >> (8 * j)) & 255]; p += 8; n -= 8; }
    while(n--) c = t[0][(c ^ *p++) & 255] ^ (c >> 8);
    return ~c;
}
static void say(int fd, const char* f, ...) { char b[400]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); (void) !write(fd, b, strlen(b)); }

// Output area of n bytes with an inaccessible region behind it.
static u8* fenced(size_t n) {
    size_t pg = 4096, k = (n + pg - 1) / pg * pg;
    u8* b = (u8*) mmap(nullptr, k + (64u << 20), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if(b == MAP_FAILED || (k && mprotect(b, k, PROT_READ | PROT_WRITE))) return nullptr;
    return b + (k - n);
}
static void unfence(u8* p, size_t n) { size_t pg = 4096, k = (n + pg - 1) / pg * pg; munmap(p + n - k, k + (64u << 20)); }
// Inputs whose output size comes near or exceeds what the return value can
// express: the size query and the call itself are exact or refuse.
static int codec_limits(bool hex, u64 seed, int tier, int fd) {
    const u8* in = big_view(seed, UINT_MAX);
    if(!in) { say(fd, "info no memory for the big view\n"); return 3; }
    static const BASE64_OPTIONS opts[3] = {{'+', '/', '='}, {'-', '_', 0}, {'.', ',', '~'}};
    std::vector<unsigned> sizes;
    for(u64 base : {(u64) INT_MAX, (u64) 1 << 31, (u64) 3 << 30, (u64) UINT_MAX, (u64) INT_MAX / 4 * 3, (u64) INT_MAX / 2, (u64) 1 << 30, (u64) UINT_MAX / 4 * 3})
        for(int d = -6; d <= 6; d++) { u64 v = base + d; if(v <= UINT_MAX) sizes.push_back((unsigned) v); }
    for(int i = 0; i < 40; i++) sizes.push_back((unsigned) mix2(seed, 100 + i));
    for(unsigned n : sizes) for(int o = 0; o < (hex ? 1 : 3); o++) {
        u64 need = hex ? 2ull * n : opts[o].pad ? (n + 2ull) / 3 * 4 : (n * 8ull + 5) / 6;
        int q = hex ? fast_hex_encode(in, n, nullptr, 0, 0) : fast_base64_encode(in, n, nullptr, 0, &opts[o]);
        if(q >= 0 && (u64) q < need) { say(fd, "violated result: the size query for %u bytes answers %d, less than the %llu characters needed\n", n, q, (unsigned long long) need); return 1; }
        size_t room = mix2(seed, n) % 40; u8* out = fenced(room); if(!out) return 3;
        if(need <= room) continue;
        int r = hex ? fast_hex_encode(in, n, (char*) out, (unsigned) room, 1) : fast_base64_encode(in, n, (char*) out, (unsigned) room, &opts[o]);
        if(r >= 0) { say(fd, "violated result: encoding %u bytes into %zu bytes of output is reported as successful (%d)\n", n, room, r); return 1; }
    }
    for(size_t n : {hex ? (size_t) INT_MAX / 2 + 1 : (size_t) INT_MAX / 4 * 3 + 4, hex ? ((size_t) 1 << 30) + mix2(seed, 13) % 1000000000 : (size_t) 1610612740 + mix2(seed, 13) % 1000000000}) {
        size_t need = hex ? 2 * n : (n + 2) / 3 * 4; // an output of that size there is room for, but the result cannot tell it
        u8* out = (u8*) mmap(nullptr, need, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(out == MAP_FAILED) return 3;
        int r = hex ? fast_hex_encode(in, (unsigned) n, (char*) out, (unsigned) need, 0) : fast_base64_encode(in, (unsigned) n, (char*) out, (unsigned) need, nullptr);
        if(r >= 0 || out[need - 1]) { say(fd, "violated result: encoding %zu bytes, whose %zu characters the result cannot express, is carried out and gives %d\n", n, need, r); return 1; }
        munmap(out, need);
    }
    // Messages of some kilobytes to some megabytes, in full.
    for(int k = 0; k < (tier ? 60 : 12); k++) {
        size_t n = (size_t) (mix2(seed, 300 + k) % (1ull << (17 + k % 7))), off = (size_t) (mix2(seed, 400 + k) % 5000); const BASE64_OPTIONS* op = &opts[k % 3]; bool lower = k & 1;
        u8* src = fenced(n); if(!src) return 3; memcpy(src, in + off, n); std::string e;
        if(hex) { const char* x = lower ? "0123456789abcdef" : "0123456789ABCDEF"; e.reserve(2 * n); for(size_t i = 0; i < n; i++) { e += x[src[i] >> 4]; e += x[src[i] & 15]; } }
        else {
            std::string x = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"; x += op->ch62; x += op->ch63; u32 acc = 0; int bits = 0; e.reserve(n * 4 / 3 + 4);
            for(size_t i = 0; i < n; i++) { acc = acc << 8 | src[i]; bits += 8; while(bits >= 6) { bits -= 6; e += x[acc >> bits & 63]; } acc &= 63; }
            if(bits) e += x[acc << (6 - bits) & 63];
            if(op->pad) while(e.size() % 4) e += op->pad;
        }
        u8* out = fenced(e.size()); if(!out) return 3;
        int r = hex ? fast_hex_encode(src, (unsigned) n, (char*) out, (unsigned) e.size(), lower) : fast_base64_encode(src, (unsigned) n, (char*) out, (unsigned) e.size(), op);
        if(r != (int) e.size() || memcmp(out, e.data(), e.size()) != 0) { say(fd, "violated result: the text of a message of %zu bytes is wrong (%d)\n", n, r); return 1; }
        u8* back = fenced(n); if(!back) return 3;
        int d = hex ? fast_hex_decode((char*) out, (unsigned) r, back, (unsigned) n) : fast_base64_decode((char*) out, (unsigned) r, back, (unsigned) n, op);
        if(d != (int) n || memcmp(back, src, n) != 0) { say(fd, "violated result: the text of %zu bytes does not decode to themselves (%d)\n", n, d); return 1; }
        if(n) {     // damaged in transfer
            size_t p = (size_t) (mix2(seed, 500 + k) % (e.size() - (e.size() > 3 ? 3 : 0))); out[p] = (u8) "!\n\0\xff*"[k % 5];
            d = hex ? fast_hex_decode((char*) out, (unsigned) r, back, (unsigned) n) : fast_base64_decode((char*) out, (unsigned) r, back, (unsigned) n, op);
            if(d >= 0) { say(fd, "violated result: a text of %d characters with a foreign one at %zu is accepted (%d)\n", r, p, d); return 1; }
        }
        unfence(src, n); unfence(out, e.size()); unfence(back, n);
    }
    if(tier) {      // the largest messages there are, in full
        size_t n = (hex ? (size_t) (INT_MAX - 1) / 2 : (size_t) (INT_MAX - 1) / 4 * 3) - mix2(seed, 11) % 3, cap = (size_t) INT_MAX;
        u8* out = fenced(cap); if(!out) return 3;
        int r = hex ? fast_hex_encode(in, (unsigned) n, (char*) out, (unsigned) cap, 0) : fast_base64_encode(in, (unsigned) n, (char*) out, (unsigned) cap, nullptr);
        size_t need = hex ? 2 * n : (n + 2) / 3 * 4;
        if(r != (int) need) { say(fd, "violated result: encoding %zu bytes gives %d, expected %zu\n", n, r, need); return 1; }
        u8* back = fenced(n); if(!back) return 3;
        int d = hex ? fast_hex_decode((char*) out, (unsigned) r, back, (unsigned) n) : fast_base64_decode((char*) out, (unsigned) r, back, (unsigned) n, nullptr);
        if(d != (int) n || memcmp(back, in, n) != 0) { say(fd, "violated result: %zu encoded bytes do not decode to themselves (%d)\n", n, d); return 1; }
        say(fd, "info round trip of %zu bytes\n", n);
    }
    if(!hex) {       // a text of that length which decodes to more than the result can express
        size_t n = (size_t) UINT_MAX - mix2(seed, 12) % 4, page = PAT;
        int m = memfd_create("text", 0); if(m < 0 || ftruncate(m, page)) return 3;
        u8* w = (u8*) mmap(nullptr, page, PROT_READ | PROT_WRITE, MAP_SHARED, m, 0); if(w == MAP_FAILED) return 3;
        memset(w, 'A', page);
        size_t tot = (n + page - 1) / page * page; u8* t = (u8*) mmap(nullptr, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if(t == MAP_FAILED) return 3;
        for(size_t k = 0; k < tot; k += page) if(mmap(t + k, page, PROT_READ, MAP_SHARED | MAP_FIXED, m, 0) == MAP_FAILED) return 3;
        u8* out = fenced(64);
        int q = fast_base64_decode((char*) t, (unsigned) n, nullptr, 0, nullptr), r = fast_base64_decode((char*) t, (unsigned) n, out, 64, nullptr);
        if(q >= 0 || r >= 0) { say(fd, "violated result: decoding a text of %zu characters is reported as successful (%d, %d)\n", n, q, r); return 1; }
    }
    say(fd, "info %zu input sizes up to %u bytes: size queries exact or refused, small outputs refused\n", sizes.size(), UINT_MAX);
    return 0;
}
int large_main(const char* id, u64 seed, int tier, int fd);     // large.cpp
static int scenario(const char* id, u64 seed, int tier, int fd) {
    int r = large_main(id, seed, tier, fd);
    if(r != 3 || !(strstr("C18 C19 C20 C21", id))) return r;
    if(!strcmp(id, "C19")) return codec_limits(false, seed, tier, fd);
    if(!strcmp(id, "C20")) return codec_limits(true, seed, tier, fd);
    size_t n = (4ull << 30) + 1 + mix2(seed, 9) % 100000;       // beyond what 32 bits count
    const u8* p = big_view(seed, n);
    if(!p) { say(fd, "info no memory for the big view\n"); return 3; }
    if(!strcmp(id, "C21")) {
        u32 got = 0, exp = crc_ref(p, 0); std::thread lib([&] { got = fast_crc32(p, n); }); exp = crc_ref(p, n); lib.join();
        if(got != exp) { say(fd, "violated result: crc32 of %zu bytes is %08x, expected %08x\n", n, got, exp); return 1; }
        say(fd, "info CRC-32 of %zu bytes agrees with the reference\n", n);
    } else if(!strcmp(id, "C18")) {
        size_t cut = (1ull << 30) - 500 + mix2(seed, 10) % 400;      // pieces well below 2^30
        u32 a = 0, b = 2166136261u; u64 c = 0, d = 14695981039346656037ull; u32 e = 2166136261u; u64 f = 14695981039346656037ull;
        std::thread t[5] = {
            std::thread([&] { a = fast_fnv1a_32(2166136261u, p, n); }), std::thread([&] { c = fast_fnv1a_64(14695981039346656037ull, p, n); }),
            std::thread([&] { for(size_t i = 0; i < n; i += cut) b = fast_fnv1a_32(b, p + i, std::min(cut, n - i)); }), std::thread([&] { for(size_t i = 0; i < n; i += cut) d = fast_fnv1a_64(d, p + i, std::min(cut, n - i)); }),
            std::thread([&] { for(size_t i = 0; i < n; i++) { e = (e ^ p[i]) * 16777619u; f = (f ^ p[i]) * 1099511628211ull; } }) };
        for(auto& x : t) x.join();
        if(a != e || b != e) { say(fd, "violated result: 32-bit FNV-1a of %zu bytes is %08x in one piece and %08x in several, expected %08x\n", n, a, b, e); return 1; }
        if(c != f || d != f) { say(fd, "violated result: 64-bit FNV-1a of %zu bytes is %016llx in one piece and %016llx in several, expected %016llx\n", n, (unsigned long long) c, (unsigned long long) d, (unsigned long long) f); return 1; }
        say(fd, "info FNV-1a of %zu bytes agrees with the reference, in one piece and in several\n", n);
    } else return 3;
    return 0;
}
// Memory which is only mapped must stay that way: too much of it in use says
// nothing about the library, but would disturb everything else.
static void watch_memory(int fd) {
    for(;;) {
        FILE* f = fopen("/proc/self/status", "r"); char l[200]; unsigned long kb = 0;
        if(f) { while(fgets(l, sizeof l, f)) if(sscanf(l, "RssAnon: %lu", &kb) == 1) break; fclose(f); }
        if(kb > 12ul << 20) { say(fd, "info the scenario was given up: it fills %lu MiB of memory\n", kb >> 10); _exit(3); }
        usleep(3000);
    }
}
int extra_main(int argc, char** argv) {
    if(argc < 5) return 2;
    const char* id = argv[2]; u64 seed = strtoull(argv[3], nullptr, 10);
    int fd[2]; if(pipe(fd)) return 2;
    pid_t c = fork();
    if(c == 0) { close(fd[0]); alarm(atoi(argv[4]) ? 2400 : 600); struct rlimit rl; rl.rlim_cur = rl.rlim_max = atoi(argv[4]) ? 1500 : 300; setrlimit(RLIMIT_CPU, &rl); std::thread(watch_memory, fd[1]).detach(); _exit(scenario(id, seed, atoi(argv[4]), fd[1])); }
    close(fd[1]);
    std::string s; char b[512]; ssize_t k; while((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
    int st; waitpid(c, &st, 0);
    fputs(s.c_str(), stdout);
    if(WIFSIGNALED(st)) {
        if(WTERMSIG(st) == SIGALRM) { printf("info the scenario was given up for lack of time\n"); return 3; }
        bool cpu = WTERMSIG(st) == SIGXCPU;
        struct rusage ru; getrusage(RUSAGE_CHILDREN, &ru); if(WTERMSIG(st) == SIGKILL && ru.ru_utime.tv_sec + ru.ru_stime.tv_sec >= (atoi(argv[4]) ? 1490 : 290)) cpu = true;
        if(WTERMSIG(st) == SIGKILL && !cpu) return 3;   // out of memory here says nothing about the library
        printf("violated %s: the scenario with large objects %s %d\n", cpu ? "hang" : "crash", cpu ? "does not end; signal" : "died from signal", WTERMSIG(st)); return 1; }
    if(WEXITSTATUS(st) > 3) { printf("violated crash: the scenario with large objects died in a memory error (status %d)\n", WEXITSTATUS(st)); return 1; }
    return WEXITSTATUS(st);
}
