// COM memory stream: contents (mstream) and reference counting (mref).
#include "util.h"
#include "win/windows.h"
#include "win/objidl.h"
extern "C" {
HRESULT memstream_create(const BYTE* buffer, ULONG size, IStream** p_stream);
HRESULT memstream_create_from_resource(HINSTANCE instance, const WCHAR* res_type, const WCHAR* res_name, IStream** p_stream);
const IID IID_IUnknown = {0, 0, 0, {0xC0, 0, 0, 0, 0, 0, 0, 0x46}};
const IID IID_IDispatch = {0x20400, 0, 0, {0xC0, 0, 0, 0, 0, 0, 0, 0x46}};
const IID IID_ISequentialStream = {0x0c733a30, 0x2a1c, 0x11ce, {0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d}};
const IID IID_IStream = {0x0c, 0, 0, {0xC0, 0, 0, 0, 0, 0, 0, 0x46}};
int sim_guid_eq(const GUID* a, const GUID* b) { return memcmp(a, b, sizeof *a) == 0; }
// Atomic operations: one indivisible step with a scheduling point on each side.
static void tgt(LONG volatile* p) { sim_point(); chk_mem((void*) p, 4, "target of an interlocked operation"); }
LONG sim_InterlockedIncrement(LONG volatile* p) { tgt(p); LONG v = ++*p; sim_point(); return v; }
LONG sim_InterlockedDecrement(LONG volatile* p) { tgt(p); LONG v = --*p; sim_point(); return v; }
LONG sim_InterlockedExchange(LONG volatile* p, LONG n) { tgt(p); LONG v = *p; *p = n; sim_point(); return v; }
LONG sim_InterlockedCompareExchange(LONG volatile* p, LONG n, LONG c) { tgt(p); LONG v = *p; if(v == c) *p = n; sim_point(); return v; }
LONG sim_InterlockedExchangeAdd(LONG volatile* p, LONG n) { tgt(p); LONG v = *p; *p += n; sim_point(); return v; }
// Resources of the simulated module.
static DWORD g_last_error; static int g_res_fail; static BYTE* g_res_data; static DWORD g_res_size; static const WCHAR* g_res_name; static const WCHAR* g_res_type;
HRSRC FindResourceW(HINSTANCE, LPCWSTR name, LPCWSTR type) { sim_point(); if(g_res_fail == 1) { g_last_error = ERROR_RESOURCE_NAME_NOT_FOUND; return nullptr; } CHECK(name == g_res_name && type == g_res_type, "result", "resource looked up with its name and type mixed up"); return (HRSRC) 0x1000; }
DWORD SizeofResource(HINSTANCE, HRSRC r) { sim_point(); if(g_res_fail == 2) { g_last_error = ERROR_RESOURCE_DATA_NOT_FOUND; return 0; } return g_res_size; }
HGLOBAL LoadResource(HINSTANCE, HRSRC r) { sim_point(); if(g_res_fail == 3) { g_last_error = ERROR_NOT_ENOUGH_MEMORY; return nullptr; } return (HGLOBAL) 0x2000; }
LPVOID LockResource(HGLOBAL g) { sim_point(); if(g_res_fail == 4) { g_last_error = ERROR_RESOURCE_DATA_NOT_FOUND; return nullptr; } return g_res_data; }
DWORD GetLastError(void) { return g_last_error; }
void SetLastError(DWORD e) { g_last_error = e; }
}

namespace {
const IID IID_Other = {0x12345678, 1, 2, {1, 2, 3, 4, 5, 6, 7, 8}};

// Destination stream of CopyTo(), with a fault plan.
struct Sink {
    IStream is;           // must be first
    std::string got; int mode; u64 limit; int calls; bool failed, shortw;
    static HRESULT QI(IStream*, REFIID, void** o) { *o = nullptr; return E_NOINTERFACE; }
    static ULONG Ref(IStream*) { return 1; }
    static HRESULT Rd(IStream*, void*, ULONG, ULONG* n) { if(n) *n = 0; return STG_E_ACCESSDENIED; }
    static HRESULT Wr(IStream* s, const void* b, ULONG n, ULONG* w) {
        sim_point();
        Sink* k = (Sink*) s; k->calls++;
        if(n) chk_mem(b, n, "data written to the destination stream");
        if(k->mode == 1 && k->got.size() >= k->limit) { k->failed = true; if(w) *w = 0; note_fault("destination write failure"); return STG_E_MEDIUMFULL; }
        ULONG take = n;
        if(k->mode == 2 && n > k->limit) { take = (ULONG) k->limit; k->shortw = true; note_fault("short write at the destination"); }
        k->got.append((const char*) b, take);
        if(w) *w = take;
        sim_point();
        return S_OK;
    }
    static HRESULT Sk(IStream*, LARGE_INTEGER, DWORD, ULARGE_INTEGER*) { return STG_E_INVALIDFUNCTION; }
    static HRESULT SS(IStream*, ULARGE_INTEGER) { return STG_E_INVALIDFUNCTION; }
    static HRESULT CT(IStream*, IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*) { return E_NOTIMPL; }
    static HRESULT Cm(IStream*, DWORD) { return S_OK; }
    static HRESULT Rv(IStream*) { return S_OK; }
    static HRESULT Lk(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD) { return STG_E_INVALIDFUNCTION; }
    static HRESULT St(IStream*, STATSTG*, DWORD) { return E_NOTIMPL; }
    static HRESULT Cl(IStream*, IStream** o) { *o = nullptr; return E_NOTIMPL; }
    static IStreamVtbl vt;
    Sink(int m, u64 l) : mode(m), limit(l), calls(0), failed(false), shortw(false) { is.lpVtbl = &vt; }
};
IStreamVtbl Sink::vt = { Sink::QI, Sink::Ref, Sink::Ref, Sink::Rd, Sink::Wr, Sink::Sk, Sink::SS, Sink::CT, Sink::Cm, Sink::Rv, Sink::Lk, Sink::Lk, Sink::St, Sink::Cl };

struct StreamMachine : Machine {
    enum { I_CREATE, I_READ, I_SEEK, I_COPY, I_CLONE, I_STAT, I_REFUSED, I_REFS, I_QI, I_RELEASE, I_RES, I_VERIFY, I_N };
    enum { NS = 5, ND = 4 };
    struct St { IStream* lib = nullptr; int d = 0; u64 pos = 0; u64 refs = 0; };
    St s[NS]; HBuf* data[ND]; std::string dm[ND];
    void gen_cfg(Rng& g, Plan& p) override { p.cfg[C_P0] = g.below(1 << 20); p.cfg[C_P1] = g.below(4); }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[I_N] = {10, 24, 16, 14, 8, 3, 4, 5, 4, 5, 3, 6};
        int tot = 0; for(int w : wt) tot += w;
        int focus = (int) g.below(NS);
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task;
            int r = (int) g.below(tot); int k = 0; while(r >= wt[k]) r -= wt[k++];
            o.code = i == 0 ? I_CREATE : k;
            o.a[0] = g.chance(2, 3) ? focus : (int) g.below(NS);
            o.a[1] = g.below(ND);
            switch(g.below(8)) { case 0: o.a[2] = 0; break; case 1: o.a[2] = 0xffffffffll - g.below(4); break; case 2: o.a[2] = g.below(5000); break; default: o.a[2] = g.below(40); }
            if(k == I_SEEK) {
                o.a[1] = g.chance(1, 10) ? (i64) g.below(1000) : (i64) g.below(3);
                switch(g.below(10)) {
                    case 0: o.a[2] = INT64_MAX - (i64) g.below(3000); break;
                    case 1: o.a[2] = INT64_MIN + (i64) g.below(3000); break;
                    case 2: o.a[2] = 0xffffffffll + g.range(-4000, 4); break;
                    case 3: o.a[2] = -(i64) g.below(3000); break;
                    case 4: o.a[2] = 0; break;
                    case 5: o.a[2] = -0x100000000ll + g.range(-20, 20); break;
                    default: o.a[2] = (i64) g.below(200) * (g.chance(1, 3) ? -1 : 1); break;
                }
            }
            if(k == I_COPY) {
                o.a[1] = g.below(6);        // destination behaviour
                switch(g.below(8)) { case 0: o.a[2] = -1; break; case 1: o.a[2] = -1 - (i64) g.below(3000); break; case 2: o.a[2] = 0x100000000ll + (i64) g.below(100); break; case 3: o.a[2] = 0; break; case 4: o.a[2] = INT64_MAX - (i64) g.below(4000); break; default: o.a[2] = (i64) g.below(200); }
                o.a[3] = g.below(60);
            }
            if(k == I_RES) o.a[3] = g.below(5);
            o.salt = g.next();
            o.fail = gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op&) override { return false; }
    void start() override {
        for(int i = 0; i < ND; i++) {
            Rng g(mix2(plan->cfg[C_P0], i)); size_t n = i == 0 ? 0 : i == 1 ? 1 + g.below(8) : g.below(plan->cfg[C_P1] == 0 ? 5000 : 120) + 1;
            dm[i] = payload(mix2(plan->cfg[C_SALT], i), n); data[i] = new HBuf(dm[i]);
        }
    }
    // Where the stream stands, seen through the interface.
    u64 tell(St& x) {
        LARGE_INTEGER z; z.QuadPart = 0; ULARGE_INTEGER p; p.QuadPart = 777777777777ull;
        HRESULT hr = IStream_Seek(x.lib, z, STREAM_SEEK_CUR, &p);
        CHECK(hr == S_OK, "result", "asking for the current position failed (%x)", (u32) hr);
        return p.QuadPart;
    }
    void verify(St& x, const char* when) {
        chk_mem(x.lib, sizeof(IStream), "stream object");
        u64 p = tell(x);
        CHECK(p == x.pos, "content", "%s: the stream stands at %llu, expected %llu", when, (unsigned long long) p, (unsigned long long) x.pos);
        for(int i = 0; i < ND; i++) CHECK(data[i]->str() == dm[i], "content", "%s: the stream's data were modified", when);
        log_result(p);
    }
    void drop(St& x) {
        while(x.refs > 0) {
            ULONG r = IStream_Release(x.lib); x.refs--;
            CHECK(r == x.refs, "result", "Release() reports %u references, expected %llu", r, (unsigned long long) x.refs);
        }
        x.lib = nullptr;
    }
    int adopt(St& x, HRESULT hr, IStream* p, bool failed, int d, u64 pos, const char* what) {
        if(hr < 0 || p == nullptr) {
            CHECK(failed, "spurious-fail", "%s failed (%x) although nothing prevented it", what, (u32) hr);
            CHECK(hr < 0, "result", "%s reports success (%x) without giving a stream", what, (u32) hr);
            CHECK(p == nullptr, "result", "%s failed but left a stream pointer behind", what);
            return R_FAULTED;
        }
        CHECK(hr == S_OK, "result", "%s returned %x", what, (u32) hr);
        x.lib = p; x.d = d; x.pos = pos; x.refs = 1;
        verify(x, what);
        return R_OK;
    }
    int exec(const Op& op) override {
        St& x = s[idx(op.a[0], NS)]; int nf0 = opctx().nfailed;
        auto failed = [&]() { return opctx().nfailed > nf0; };
        if(op.code == I_CREATE || op.code == I_RES) {
            if(x.lib) drop(x);
            int d = (int) idx(op.a[1], ND); IStream* p = (IStream*) 0x10; HRESULT hr;
            if(op.code == I_CREATE) {
                hr = memstream_create((const BYTE*) data[d]->p, (ULONG) dm[d].size(), &p);
                return adopt(x, hr, p, failed(), d, 0, "creating a stream");
            }
            if(dm[d].empty()) d = 1;
            g_res_fail = (int) idx(op.a[3], 5); g_res_data = (BYTE*) data[d]->p; g_res_size = (DWORD) dm[d].size();
            static const WCHAR nm[] = {'n', 0}, ty[] = {'t', 0}; g_res_name = nm; g_res_type = ty;
            bool rf = g_res_fail != 0; if(rf) note_fault("resource lookup failure");
            hr = memstream_create_from_resource((HINSTANCE) 0x4000, ty, nm, &p);
            int r = adopt(x, hr, p, failed() || rf, d, 0, "creating a stream from a resource");
            if(rf) CHECK(r == R_FAULTED, "result", "a stream was created from a missing resource");
            g_res_fail = 0;
            return rf ? R_OK : r;
        }
        if(!x.lib) return R_OK;
        const std::string& m = dm[x.d]; u64 size = m.size(), left = x.pos < size ? size - x.pos : 0;
        switch(op.code) {
            case I_READ: {
                ULONG n = (ULONG) op.a[2]; size_t cap = n < (1u << 16) ? n : (1u << 16);
                HBuf out(cap); ULONG got = 0xdeadbeef; if(cap) memset(out.p, 0x5c, cap);
                HRESULT hr = IStream_Read(x.lib, out.p, n, (op.salt & 7) ? &got : nullptr);
                u64 e = n < left ? n : left;
                if(left == 0) CHECK(hr == S_FALSE, "result", "Read() at the end returned %x instead of S_FALSE", (u32) hr);
                else CHECK(hr == S_OK || (hr == S_FALSE && e < n), "result", "Read() of %u bytes with %llu left returned %x", n, (unsigned long long) left, (u32) hr);
                if(op.salt & 7) CHECK(got == e, "result", "Read() reports %u bytes, expected %llu", got, (unsigned long long) e);
                if(e) CHECK(memcmp(out.p, m.data() + x.pos, e) == 0, "content", "Read() at %llu delivered wrong bytes", (unsigned long long) x.pos);
                for(size_t i = e; i < cap; i++) CHECK(((u8*) out.p)[i] == 0x5c, "content", "Read() wrote past the %llu bytes it delivered", (unsigned long long) e);
                x.pos += e; verify(x, "after Read()"); log_result(hr); return R_OK;
            }
            case I_SEEK: {
                LARGE_INTEGER dl; dl.QuadPart = op.a[2]; u64 before = x.pos; ULARGE_INTEGER np; np.QuadPart = 1;
                DWORD origin = (DWORD) op.a[1];
                HRESULT hr = IStream_Seek(x.lib, dl, origin, (op.salt & 7) ? &np : nullptr);
                bool bad = origin > 2; __int128 t = (__int128) op.a[2] + (origin == 1 ? (__int128) before : origin == 2 ? (__int128) size : 0);
                if(bad || t < 0 || t > 0xffffffffll) CHECK(hr < 0, "result", "seeking to an unreachable position returned %x", (u32) hr);
                else { CHECK(hr == S_OK, "result", "Seek(%lld, %u) from %llu returned %x", (long long) op.a[2], origin, (unsigned long long) before, (u32) hr); x.pos = (u64) t; }
                if(op.salt & 7) CHECK(np.QuadPart == x.pos, "result", "Seek() reports position %llu, expected %llu", (unsigned long long) np.QuadPart, (unsigned long long) x.pos);
                verify(x, "after Seek()"); return R_OK;
            }
            case I_COPY: {
                u64 n = (u64) op.a[2], e = n < left ? n : left; u64 from = x.pos;
                int mode = op.a[1] % 6; if(mode < 0) mode = 0;
                ULARGE_INTEGER nr, nw; nr.QuadPart = nw.QuadPart = 0x1234567890ull; ULARGE_INTEGER nn; nn.QuadPart = n;
                bool want = (op.salt & 7) != 0;
                if(mode == 5) {     // the destination is a read-only stream
                    St& y = s[idx(op.a[0] + 1, NS)]; if(!y.lib || &y == &x) return R_OK;
                    HRESULT hr = IStream_CopyTo(x.lib, y.lib, nn, want ? &nr : nullptr, want ? &nw : nullptr);
                    if(e) CHECK(hr < 0, "result", "copying into a read-only stream returned %x", (u32) hr);
                    note_fault("destination refuses writes");
                    verify(y, "after a refused copy into it");
                    resync(x, from, 0, hr);
                    return R_OK;
                }
                Sink k(mode == 1 ? 1 : mode >= 3 ? 0 : mode, mode == 1 ? (u64) (op.a[3] % 3 ? 0 : op.a[3]) : (u64) op.a[3]);
                HRESULT hr = IStream_CopyTo(x.lib, &k.is, nn, want ? &nr : nullptr, want ? &nw : nullptr);
                CHECK(k.got.size() <= e, "content", "CopyTo() of %llu bytes delivered %zu of the %llu there are", (unsigned long long) n, k.got.size(), (unsigned long long) left);
                CHECK(k.got == m.substr(from < size ? from : size, k.got.size()), "content", "CopyTo() from %llu delivered wrong bytes", (unsigned long long) from);
                if(hr < 0) { CHECK(k.failed, "spurious-fail", "CopyTo() failed with %x although the destination did not", (u32) hr); resync(x, from, k.got.size(), hr); return R_OK; }
                if(k.failed && e) violate("result", "CopyTo() reports success although the destination failed");
                if(!k.shortw && !k.failed) CHECK(k.got.size() == e, "content", "CopyTo() of %llu bytes delivered %zu, expected %llu", (unsigned long long) n, k.got.size(), (unsigned long long) e);
                if(want) CHECK(nr.QuadPart == k.got.size() && nw.QuadPart == k.got.size(), "result", "CopyTo() reports %llu read and %llu written, the destination took %zu", (unsigned long long) nr.QuadPart, (unsigned long long) nw.QuadPart, k.got.size());
                x.pos += k.got.size();
                verify(x, "after CopyTo()"); return R_OK;
            }
            case I_CLONE: {
                int j = (int) idx(op.a[0] + 1 + (i64) idx(op.a[1], NS - 1), NS); St& y = s[j];
                if(y.lib) drop(y);
                nf0 = opctx().nfailed;
                IStream* p = (IStream*) 0x10; HRESULT hr = IStream_Clone(x.lib, &p);
                int r = adopt(y, hr, p, failed(), x.d, x.pos, "cloning a stream");
                verify(x, "after being cloned");
                if(r == R_OK) CHECK(y.lib != x.lib, "result", "the clone is the stream itself");
                return r;
            }
            case I_STAT: {
                HBuf b(sizeof(STATSTG)); STATSTG* st = (STATSTG*) b.p; memset(st, 0x77, sizeof *st);
                HRESULT hr = IStream_Stat(x.lib, st, op.salt & 1);
                CHECK(hr == S_OK && st->type == STGTY_STREAM && st->cbSize.QuadPart == size, "result", "Stat() gives %x, type %u, size %llu, expected a stream of %llu bytes", (u32) hr, st->type, (unsigned long long) st->cbSize.QuadPart, (unsigned long long) size);
                CHECK((st->grfMode & 3) == STGM_READ && st->pwcsName == nullptr, "result", "Stat() misreports mode or name");
                verify(x, "after Stat()"); return R_OK;
            }
            case I_REFUSED: {
                HBuf b(payload(op.salt, 16)); ULONG w = 99; ULARGE_INTEGER z; z.QuadPart = op.a[2];
                HRESULT hr = IStream_Write(x.lib, b.p, (ULONG) (op.salt % 17), (op.salt & 32) ? &w : nullptr);
                CHECK(hr < 0, "result", "Write() to a read-only stream returned %x", (u32) hr);
                if(op.salt & 32) CHECK(w == 0, "result", "refused Write() reports %u bytes", w);
                hr = IStream_SetSize(x.lib, z); CHECK(hr < 0, "result", "SetSize() of a read-only stream returned %x", (u32) hr);
                CHECK(IStream_Commit(x.lib, 0) == S_OK && IStream_Revert(x.lib) == S_OK, "result", "Commit() or Revert() failed");
                CHECK(IStream_LockRegion(x.lib, z, z, 1) < 0 && IStream_UnlockRegion(x.lib, z, z, 1) < 0, "result", "region locking claims to work");
                verify(x, "after refused operations"); return R_OK;
            }
            case I_REFS: {
                int n = 1 + (int) (op.salt % 3);
                for(int i = 0; i < n; i++) { ULONG r = IStream_AddRef(x.lib); x.refs++; CHECK(r == x.refs, "result", "AddRef() reports %u references, expected %llu", r, (unsigned long long) x.refs); }
                verify(x, "after AddRef()"); return R_OK;
            }
            case I_QI: {
                const IID* ids[] = {&IID_IUnknown, &IID_ISequentialStream, &IID_IStream, &IID_Other, &IID_IDispatch};
                int k = (int) (op.salt % 5); void* o = (void*) 0x10;
                HRESULT hr = x.lib->lpVtbl->QueryInterface(x.lib, ids[k], &o);
                if(k == 3) CHECK(hr == E_NOINTERFACE && o == nullptr, "result", "asking for an unknown interface gives %x", (u32) hr);
                else if(k == 4 && hr != S_OK) CHECK(hr == E_NOINTERFACE && o == nullptr, "result", "asking for a further interface gives %x", (u32) hr);
                else { CHECK(hr == S_OK && o == (void*) x.lib, "result", "asking for a supported interface gives %x", (u32) hr); x.refs++; }
                verify(x, "after QueryInterface()"); return R_OK;
            }
            case I_RELEASE: {
                if(op.salt & 1) { drop(x); return R_OK; }
                ULONG r = IStream_Release(x.lib); x.refs--;
                CHECK(r == x.refs, "result", "Release() reports %u references, expected %llu", r, (unsigned long long) x.refs);
                if(x.refs == 0) x.lib = nullptr; else verify(x, "after Release()");
                return R_OK;
            }
            default: verify(x, "on reading"); return R_OK;
        }
    }
    // After a failed copy the position is unspecified; bring it back to a known one.
    void resync(St& x, u64 from, u64 moved, HRESULT hr) {
        if(hr >= 0) { verify(x, "after an empty copy"); return; }
        LARGE_INTEGER z; z.QuadPart = (LONGLONG) from; HRESULT h2 = IStream_Seek(x.lib, z, STREAM_SEEK_SET, nullptr);
        CHECK(h2 == S_OK, "result", "a stream cannot be repositioned after a failed copy (%x)", (u32) h2);
        verify(x, "after a failed copy and repositioning");
    }
    void finish() override { for(auto& x : s) if(x.lib) { verify(x, "at the end"); drop(x); } for(auto d : data) delete d; }
    u64 state_hash() override { u64 h = 5; for(auto& x : s) h = mix2(h, x.lib ? x.d * 100000 + x.pos * 8 + x.refs : 0); return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"create", "Read", "Seek", "CopyTo", "Clone", "Stat", "refused operations", "AddRef", "QueryInterface", "Release", "create from resource", "verify"};
        char t[140]; snprintf(t, sizeof t, "stream[%zu] %s a=%lld n=%lld b=%lld", idx(op.a[0], NS), nm[op.code % I_N], (long long) op.a[1], (long long) op.a[2], (long long) op.a[3]); return t;
    }
};

// --------------------------------------------------- shared reference counts
struct RefMachine : Machine {
    enum { F_ADDREF, F_RELEASE, F_QI, F_CLONE, F_STAT, F_GIVE, F_WORK, F_N };
    enum { NS = 2, NT = 8 };
    struct St { IStream* lib; i64 hold[NT]; i64 started_add, done_add, started_rel, done_rel; int zero; };
    St s[NS]; HBuf* data; std::string dm; bool created;
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        int nt = (int) p.cfg[C_TASKS];
        static const int wt[F_N] = {18, 26, 8, 8, 6, 12, 8};
        int tot = 0; for(int w : wt) tot += w;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), k = 0; while(r >= wt[k]) r -= wt[k++];
            o.code = k; o.a[0] = g.chance(3, 4) ? 0 : 1; o.a[1] = (i64) g.below(nt < 1 ? 1 : nt); o.salt = g.next();
            o.fail = k == F_CLONE ? gen_fail(g, heavy) : 0;
            p.ops.push_back(o);
        }
    }
    void start() override {
        dm = payload(plan->cfg[C_SALT], 90); data = new HBuf(dm);
        int nt = (int) plan->cfg[C_TASKS]; if(nt < 1) nt = 1; if(nt > NT - 1) nt = NT - 1;
        for(auto& x : s) {
            memset(&x, 0, sizeof x);
            HRESULT hr = memstream_create((const BYTE*) data->p, (ULONG) dm.size(), &x.lib);
            CHECK(hr == S_OK && x.lib, "spurious-fail", "a stream cannot be created");
            for(int t = 0; t < nt; t++) { if(t) IStream_AddRef(x.lib); x.hold[t] = 1; }
            x.started_add = x.done_add = nt;
        }
    }
    bool add(St& x, int t, bool qi, u64 salt) {
        i64 d0 = x.done_add, sr1; x.started_add++;
        i64 rel_done0 = x.done_rel; ULONG r = 0;
        if(qi) {
            static const IID* const ids[] = {&IID_IStream, &IID_IUnknown, &IID_ISequentialStream, &IID_IDispatch, &IID_Other}; size_t k = salt % 5;
            void* o = (void*) 0x10; HRESULT hr = x.lib->lpVtbl->QueryInterface(x.lib, ids[k], &o);
            if(k == 4 || (k == 3 && hr != S_OK)) {      // no reference is taken
                CHECK(hr == E_NOINTERFACE && o == nullptr, "result", "asking for an unknown interface gives %x", (u32) hr);
                x.started_add--; return false;
            }
            CHECK(hr == S_OK && o == (void*) x.lib, "result", "QueryInterface() failed on a live stream");
        } else r = IStream_AddRef(x.lib);
        sr1 = x.started_rel; x.done_add++; x.hold[t]++;
        if(!qi) CHECK((i64) r >= d0 + 1 - sr1 && (i64) r <= x.started_add - rel_done0, "result", "AddRef() reports %u references; between %lld and %lld exist", r, (long long) (d0 + 1 - sr1), (long long) (x.started_add - rel_done0));
        return true;
    }
    void rel(St& x, int t) {
        i64 d0 = x.done_add, rd0 = x.done_rel; x.started_rel++; x.hold[t]--;
        ULONG r = IStream_Release(x.lib);
        i64 sa1 = x.started_add, sr1 = x.started_rel; x.done_rel++;
        i64 lo = d0 - sr1, hi = sa1 - rd0 - 1;
        CHECK((i64) (LONG) r >= lo && (i64) (LONG) r <= hi, "result", "Release() reports %d references; between %lld and %lld exist", (int) r, (long long) lo, (long long) hi);
        if(r == 0) { x.zero++; CHECK(x.zero == 1, "result", "two Release() calls were told they released the last reference"); }
    }
    int exec(const Op& op) override {
        int t = cur_task(); St& x = s[idx(op.a[0], NS)];
        if(x.hold[t] <= 0) return R_OK;           // this task owns no reference now
        chk_mem(x.lib, sizeof(IStream), "stream on which references are held");
        int res = R_OK;
        switch(op.code) {
            case F_ADDREF: add(x, t, false, op.salt); break;
            case F_RELEASE: rel(x, t); break;
            case F_QI: add(x, t, true, op.salt); break;
            case F_CLONE: {
                int nf0 = opctx().nfailed; IStream* c = (IStream*) 0x10; HRESULT hr = IStream_Clone(x.lib, &c);
                if(hr != S_OK || !c) { CHECK(opctx().nfailed > nf0, "spurious-fail", "Clone() failed although no allocation failed"); CHECK(c == nullptr && hr < 0, "result", "failed Clone() reports %x", (u32) hr); res = R_FAULTED; break; }
                HBuf out(dm.size()); ULONG n = 0; hr = IStream_Read(c, out.p, (ULONG) dm.size(), &n);
                CHECK(hr == S_OK && n == dm.size() && out.str() == dm, "content", "a clone delivers other data than the stream");
                CHECK(IStream_Release(c) == 0, "result", "releasing a fresh clone does not release it");
                break;
            }
            case F_STAT: {
                HBuf b(sizeof(STATSTG)); STATSTG* st = (STATSTG*) b.p; HRESULT hr = IStream_Stat(x.lib, st, 0);
                CHECK(hr == S_OK && st->cbSize.QuadPart == dm.size(), "content", "Stat() of a shared stream is wrong"); break;
            }
            case F_GIVE: { int to = (int) idx(op.a[1], (size_t) plan->cfg[C_TASKS]); x.hold[t]--; x.hold[to]++; note_fault("reference handed to another task"); break; }
            default: {    // take a reference, use the stream, give the reference back
                bool got = add(x, t, (op.salt & 2) != 0, op.salt); sim_point(); chk_mem(x.lib, sizeof(IStream), "stream on which references are held"); if(got) rel(x, t); break;
            }
        }
        if(x.hold[t] > 0) chk_mem(x.lib, sizeof(IStream), "stream on which references are held");
        return res;
    }
    void finish() override {
        for(auto& x : s) {
            i64 total = 0; for(i64 h : x.hold) total += h;
            CHECK(total == x.done_add - x.done_rel, "internal", "model lost count");
            if(total == 0) CHECK(x.zero == 1, "result", "every reference was released but no Release() call reported zero");
            else CHECK(x.zero == 0, "result", "a Release() call reported zero while references were still held");
            while(total > 0) {
                chk_mem(x.lib, sizeof(IStream), "stream on which references are held");
                ULONG r = IStream_Release(x.lib); total--;
                CHECK((i64) (LONG) r == total, "result", "Release() reports %d references, expected %lld", (int) r, (long long) total);
            }
        }
        CHECK(data->str() == dm, "content", "the stream's data were modified");
        delete data;
    }
    u64 state_hash() override { u64 h = 6; for(auto& x : s) for(i64 v : x.hold) h = mix2(h, (u64) v); return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"AddRef", "Release", "QueryInterface", "Clone+read+release", "Stat", "give reference to task", "AddRef, use, Release"};
        char t[100]; snprintf(t, sizeof t, "shared stream[%zu] %s %lld", idx(op.a[0], NS), nm[op.code % F_N], (long long) op.a[1]); return t;
    }
};
}
Machine* make_stream() { return new StreamMachine; }
Machine* make_ref() { return new RefMachine; }
