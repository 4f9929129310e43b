#include "shim.h"
#include "data/buffer.h"
#include "data/list.h"
#include "data/htable.h"
#include "data/rbtree.h"
#include "mem/malloca.h"
#include "mem/memchunk.h"

size_t shb_sizeof(void) { return sizeof(BUFFER); }
void shb_init(void* b) { buffer_init((BUFFER*) b); }
void shb_init_static(void* b) { static const BUFFER x = BUFFER_INITIALIZER; *(BUFFER*) b = x; }
void shb_fini(void* b) { buffer_fini((BUFFER*) b); }
size_t shb_size(const void* b) { return buffer_size((const BUFFER*) b); }
int shb_is_empty(const void* b) { return buffer_is_empty((const BUFFER*) b); }
const void* shb_cdata(const void* b) { return buffer_const_data((const BUFFER*) b); }
void* shb_data(void* b) { return buffer_data((BUFFER*) b); }
const void* shb_cdata_at(const void* b, size_t off) { return buffer_const_data_at((const BUFFER*) b, off); }
void* shb_data_at(void* b, size_t off) { return buffer_data_at((BUFFER*) b, off); }
int shb_realloc(void* b, size_t n) { return buffer_realloc((BUFFER*) b, n); }
int shb_reserve(void* b, size_t n) { return buffer_reserve((BUFFER*) b, n); }
void shb_shrink(void* b) { buffer_shrink((BUFFER*) b); }
void* shb_insert_raw(void* b, size_t off, size_t n) { return buffer_insert_raw((BUFFER*) b, off, n); }
int shb_insert(void* b, size_t off, const void* d, size_t n) { return buffer_insert((BUFFER*) b, off, d, n); }
void* shb_append_raw(void* b, size_t n) { return buffer_append_raw((BUFFER*) b, n); }
int shb_append(void* b, const void* d, size_t n) { return buffer_append((BUFFER*) b, d, n); }
void shb_remove(void* b, size_t off, size_t n) { buffer_remove((BUFFER*) b, off, n); }
void shb_clear(void* b) { buffer_clear((BUFFER*) b); }
void* shb_acquire(void* b, size_t* sz) { return buffer_acquire((BUFFER*) b, sz); }
void shb_swap(void* a, void* b) { buffer_swap((BUFFER*) a, (BUFFER*) b); }

void shs_init(void* s) { stack_init((STACK*) s); }
void shs_init_static(void* s) { static const STACK x = STACK_INITIALIZER; *(STACK*) s = x; }
void shs_fini(void* s) { stack_fini((STACK*) s); }
int shs_reserve(void* s, size_t n) { return stack_reserve((STACK*) s, n); }
size_t shs_size(const void* s) { return stack_size((const STACK*) s); }
int shs_is_empty(const void* s) { return stack_is_empty((const STACK*) s); }
const void* shs_cdata(const void* s) { return stack_const_data((const STACK*) s); }
void* shs_data(void* s) { return stack_data((STACK*) s); }
void* shs_push_raw(void* s, size_t n) { return stack_push_raw((STACK*) s, n); }
int shs_push(void* s, const void* d, size_t n) { return stack_push((STACK*) s, d, n); }
int shs_push_t(void* s, int t, uint64_t v) {
    STACK* k = (STACK*) s;
    switch(t) {
        case 0: return stack_push_int8(k, (int8_t) v); case 1: return stack_push_uint8(k, (uint8_t) v);
        case 2: return stack_push_int16(k, (int16_t) v); case 3: return stack_push_uint16(k, (uint16_t) v);
        case 4: return stack_push_int32(k, (int32_t) v); case 5: return stack_push_uint32(k, (uint32_t) v);
        case 6: return stack_push_int64(k, (int64_t) v); case 7: return stack_push_uint64(k, (uint64_t) v);
        default: return stack_push_ptr(k, (const void*) (uintptr_t) v);
    }
}
uint64_t shs_peek_t(const void* s, int t) {
    const STACK* k = (const STACK*) s;
    switch(t) {
        case 0: return (uint64_t) (int64_t) stack_peek_int8(k); case 1: return stack_peek_uint8(k);
        case 2: return (uint64_t) (int64_t) stack_peek_int16(k); case 3: return stack_peek_uint16(k);
        case 4: return (uint64_t) (int64_t) stack_peek_int32(k); case 5: return stack_peek_uint32(k);
        case 6: return (uint64_t) stack_peek_int64(k); case 7: return stack_peek_uint64(k);
        default: return (uint64_t) (uintptr_t) stack_peek_ptr(k);
    }
}
uint64_t shs_pop_t(void* s, int t) {
    STACK* k = (STACK*) s;
    switch(t) {
        case 0: return (uint64_t) (int64_t) stack_pop_int8(k); case 1: return stack_pop_uint8(k);
        case 2: return (uint64_t) (int64_t) stack_pop_int16(k); case 3: return stack_pop_uint16(k);
        case 4: return (uint64_t) (int64_t) stack_pop_int32(k); case 5: return stack_pop_uint32(k);
        case 6: return (uint64_t) stack_pop_int64(k); case 7: return stack_pop_uint64(k);
        default: return (uint64_t) (uintptr_t) stack_pop_ptr(k);
    }
}
const void* shs_peek_raw(const void* s, size_t n) { return stack_peek_raw((const STACK*) s, n); }
void shs_peek(const void* s, void* a, size_t n) { stack_peek((const STACK*) s, a, n); }
void* shs_pop_raw(void* s, size_t n) { return stack_pop_raw((STACK*) s, n); }
void shs_pop(void* s, void* a, size_t n) { stack_pop((STACK*) s, a, n); }
void shs_clear(void* s) { stack_clear((STACK*) s); }
void* shs_acquire(void* s, size_t* sz) { return stack_acquire((STACK*) s, sz); }
void shs_swap(void* a, void* b) { stack_swap((STACK*) a, (STACK*) b); }

#define ARR(N, T, CAST) \
static void N##_i(void* a) { array_##N##_init((ARRAY_##N*) a); } \
static void N##_is(void* a) { static const ARRAY_##N x = ARRAY_##N##_INITIALIZER; *(ARRAY_##N*) a = x; } \
static void N##_f(void* a) { array_##N##_fini((ARRAY_##N*) a); } \
static const void* N##_cd(const void* a) { return (const void*) array_##N##_const_data((const ARRAY_##N*) a); } \
static void* N##_d(void* a) { return (void*) array_##N##_data((ARRAY_##N*) a); } \
static size_t N##_s(const void* a) { return array_##N##_size((const ARRAY_##N*) a); } \
static int N##_e(void* a) { return array_##N##_is_empty((ARRAY_##N*) a); } \
static uint64_t N##_g(const void* a, size_t i) { return (uint64_t) (CAST) array_##N##_get((const ARRAY_##N*) a, i); } \
static void N##_st(void* a, size_t i, uint64_t v) { array_##N##_set((ARRAY_##N*) a, i, (T) v); } \
static int N##_ir(void* a, size_t i) { return array_##N##_insert_raw((ARRAY_##N*) a, i); } \
static int N##_in(void* a, size_t i, uint64_t v) { return array_##N##_insert(a, i, (T) v); } \
static int N##_inr(void* a, size_t i, size_t n) { return array_##N##_insert_n_raw((ARRAY_##N*) a, i, n); } \
static int N##_ar(void* a) { return array_##N##_append_raw((ARRAY_##N*) a); } \
static int N##_ap(void* a, uint64_t v) { return array_##N##_append((ARRAY_##N*) a, (T) v); } \
static int N##_an(void* a, size_t n) { return array_##N##_append_n((ARRAY_##N*) a, n); } \
static void N##_r(void* a, size_t i) { array_##N##_remove((ARRAY_##N*) a, i); } \
static void N##_rn(void* a, size_t i, size_t n) { array_##N##_remove_n((ARRAY_##N*) a, i, n); } \
static void* N##_ac(void* a, size_t* n) { return (void*) array_##N##_acquire((ARRAY_##N*) a, n); }
ARR(int8, int8_t, int64_t) ARR(uint8, uint8_t, uint8_t) ARR(int16, int16_t, int64_t) ARR(uint16, uint16_t, uint16_t)
ARR(int32, int32_t, int64_t) ARR(uint32, uint32_t, uint32_t) ARR(int64, int64_t, int64_t) ARR(uint64, uint64_t, uint64_t)
typedef void* voidp;
ARR(ptr, voidp, uintptr_t)
#define ENT(N, T) { sizeof(T), N##_i, N##_is, N##_f, N##_cd, N##_d, N##_s, N##_e, N##_g, N##_st, N##_ir, N##_in, N##_inr, N##_ar, N##_ap, N##_an, N##_r, N##_rn, N##_ac }
const SHA sh_arrays[9] = { ENT(int8, int8_t), ENT(uint8, uint8_t), ENT(int16, int16_t), ENT(uint16, uint16_t), ENT(int32, int32_t),
    ENT(uint32, uint32_t), ENT(int64, int64_t), ENT(uint64, uint64_t), ENT(ptr, void*) };

typedef struct LD { int pad; LIST_NODE node; } LD;
typedef struct SLD { char pad[24]; SLIST_NODE node; } SLD;
typedef struct QLD { char pad[40]; QLIST_NODE node; } QLD;
size_t shl_sizeof(int k) { return k == 0 ? sizeof(LIST) : k == 1 ? sizeof(SLIST) : sizeof(QLIST); }
size_t shl_node_sizeof(int k) { return k == 0 ? sizeof(LIST_NODE) : k == 1 ? sizeof(SLIST_NODE) : sizeof(QLIST_NODE); }
size_t shl_data_off(int k) { return k == 0 ? offsetof(LD, node) : k == 1 ? offsetof(SLD, node) : offsetof(QLD, node); }
void* shl_data(int k, void* n) {
    if(k == 0) return LIST_DATA((LIST_NODE*) n, LD, node);
    if(k == 1) return SLIST_DATA((SLIST_NODE*) n, SLD, node);
    return QLIST_DATA((QLIST_NODE*) n, QLD, node);
}
void shl_init(int k, void* l) { if(k == 0) list_init((LIST*) l); else if(k == 1) slist_init((SLIST*) l); else qlist_init((QLIST*) l); }
int shl_is_empty(int k, const void* l) { return k == 0 ? list_is_empty((const LIST*) l) : k == 1 ? slist_is_empty((const SLIST*) l) : qlist_is_empty((const QLIST*) l); }
void* shl_head(int k, const void* l) { return k == 0 ? (void*) list_head((const LIST*) l) : k == 1 ? (void*) slist_head((const SLIST*) l) : (void*) qlist_head((const QLIST*) l); }
void* shl_tail(int k, const void* l) { return k == 0 ? (void*) list_tail((const LIST*) l) : (void*) qlist_tail((const QLIST*) l); }
void* shl_next(int k, const void* n) { return k == 0 ? (void*) list_next((const LIST_NODE*) n) : k == 1 ? (void*) slist_next((const SLIST_NODE*) n) : (void*) qlist_next((const QLIST_NODE*) n); }
void* shl_prev(const void* n) { return list_prev((const LIST_NODE*) n); }
const void* shl_end(int k, const void* l) { return k == 0 ? (const void*) list_end((const LIST*) l) : k == 1 ? (const void*) slist_end((const SLIST*) l) : (const void*) qlist_end((const QLIST*) l); }
void shl_insert_after(int k, void* l, void* w, void* n) {
    if(k == 0) list_insert_after((LIST*) l, (LIST_NODE*) w, (LIST_NODE*) n);
    else if(k == 1) slist_insert_after((SLIST*) l, (SLIST_NODE*) w, (SLIST_NODE*) n);
    else qlist_insert_after((QLIST*) l, (QLIST_NODE*) w, (QLIST_NODE*) n);
}
void shl_insert_before(void* l, void* w, void* n) { list_insert_before((LIST*) l, (LIST_NODE*) w, (LIST_NODE*) n); }
void shl_append(int k, void* l, void* n) { if(k == 0) list_append((LIST*) l, (LIST_NODE*) n); else qlist_append((QLIST*) l, (QLIST_NODE*) n); }
void shl_prepend(int k, void* l, void* n) { if(k == 0) list_prepend((LIST*) l, (LIST_NODE*) n); else if(k == 1) slist_prepend((SLIST*) l, (SLIST_NODE*) n); else qlist_prepend((QLIST*) l, (QLIST_NODE*) n); }
void shl_remove(int k, void* l, void* prev, void* n) {
    if(k == 0) list_remove((LIST*) l, (LIST_NODE*) n);
    else if(k == 1) slist_remove((SLIST*) l, (SLIST_NODE*) prev, (SLIST_NODE*) n);
    else qlist_remove((QLIST*) l, (QLIST_NODE*) prev, (QLIST_NODE*) n);
}
void shl_remove_head(int k, void* l) { if(k == 0) list_remove_head((LIST*) l); else if(k == 1) slist_remove_head((SLIST*) l); else qlist_remove_head((QLIST*) l); }
void shl_remove_tail(void* l) { list_remove_tail((LIST*) l); }

void sh_htable_init(void* t) { htable_init((HTABLE*) t); }
void sh_htable_init_static(void* t) { static const HTABLE x = HTABLE_INITIALIZER; *(HTABLE*) t = x; }
int sh_htable_is_empty(void* t) { return htable_is_empty((HTABLE*) t); }
void sh_rbtree_init(void* t) { rbtree_init((RBTREE*) t); }
void sh_rbtree_init_static(void* t) { static const RBTREE x = RBTREE_INITIALIZER; *(RBTREE*) t = x; }
int sh_rbtree_is_empty(const void* t) { return rbtree_is_empty((const RBTREE*) t); }
void sh_rbcursor_init(void* c) { static const RBTREE_CURSOR x = RBTREE_CURSOR_INITIALIZER; *(RBTREE_CURSOR*) c = x; }

/* MALLOCA: alloca() lives until its function returns, so every scenario keeps
 * its allocations and releases inside one function, as an application does. */
size_t shm_default_threshold(void) { return MALLOCA_THRESHOLD; }
int shm_nkinds(void) { return 7; }
#define MAXM 12
static void shm_loop_default(const size_t* sizes, int n, const int* order, SHM_CB* cb) {
    void* p[MAXM]; int i;
    for(i = 0; i < n; i++) { p[i] = MALLOCA(sizes[i]); cb->got(cb->ctx, i, sizes[i], MALLOCA_THRESHOLD, p[i]); }
    for(i = 0; i < n; i++) { int k = order[i]; cb->freeing(cb->ctx, k, p[k]); FREEA(p[k]); cb->freed(cb->ctx, k); }
}
static void shm_loop_thr(const size_t* sizes, const size_t* thr, int n, const int* order, SHM_CB* cb) {
    void* p[MAXM]; int i;
    for(i = 0; i < n; i++) { p[i] = MALLOCA_(sizes[i], thr[i]); cb->got(cb->ctx, i, sizes[i], thr[i], p[i]); }
    for(i = 0; i < n; i++) { int k = order[i]; cb->freeing(cb->ctx, k, p[k]); FREEA(p[k]); cb->freed(cb->ctx, k); }
}
static void shm_interleaved(const size_t* sizes, int n, SHM_CB* cb) {
    void* prev = NULL; int i, pi = -1;
    for(i = 0; i < n; i++) {
        void* q = MALLOCA(sizes[i]);
        cb->got(cb->ctx, i, sizes[i], MALLOCA_THRESHOLD, q);
        if(pi >= 0) { cb->freeing(cb->ctx, pi, prev); FREEA(prev); cb->freed(cb->ctx, pi); }
        prev = q; pi = i;
    }
    if(pi >= 0) { cb->freeing(cb->ctx, pi, prev); FREEA(prev); cb->freed(cb->ctx, pi); }
}
static void shm_recursive(const size_t* sizes, int i, int n, SHM_CB* cb) {
    char* q;
    if(i >= n) return;
    q = (char*) MALLOCA(sizes[i]);
    cb->got(cb->ctx, i, sizes[i], MALLOCA_THRESHOLD, q);
    shm_recursive(sizes, i + 1, n, cb);
    cb->freeing(cb->ctx, i, q); FREEA(q); cb->freed(cb->ctx, i);
}
/* Arguments which are expressions, and pointers to other types. */
static void shm_expr(const size_t* sizes, const size_t* thr, int n, const int* order, SHM_CB* cb) {
    int* p[MAXM]; int i;
    for(i = 0; i < n; i++) {
        size_t half = sizes[i] / 2, rest = sizes[i] - half;
        if(i & 1) { p[i] = (int*) MALLOCA_(sizes[i] & 1 ? sizes[i] : half + rest, thr[i]); cb->got(cb->ctx, i, sizes[i], thr[i], p[i]); }
        else { p[i] = (int*) MALLOCA(half + rest); cb->got(cb->ctx, i, sizes[i], MALLOCA_THRESHOLD, p[i]); }
    }
    for(i = 0; i < n; i++) { int k = order[i]; cb->freeing(cb->ctx, k, p[k]); FREEA(p[k]); cb->freed(cb->ctx, k); }
}
/* An application is free to call its own pointers anything. */
static void shm_names(const size_t* sizes, int n, SHM_CB* cb) {
    int i;
    for(i = 0; i < n; i++) {
        void* x = MALLOCA(sizes[i]);
        cb->got(cb->ctx, i, sizes[i], MALLOCA_THRESHOLD, x);
        cb->freeing(cb->ctx, i, x);
        FREEA(x);
        cb->freed(cb->ctx, i);
    }
}
/* Expressions whose operators bind weakly. */
static void shm_args(const size_t* sizes, const size_t* thr, int n, const int* order, SHM_CB* cb) {
    struct { char* c; int* i; } p[MAXM]; char** pp; void* none = NULL; int i;
    for(i = 0; i < n; i++) {
        if(i & 1) { p[i].c = MALLOCA_(sizes[i] | (size_t) 0, thr[i] | (size_t) 0); cb->got(cb->ctx, i, sizes[i], thr[i], p[i].c); }
        else { p[i].c = MALLOCA_(n > 0 ? sizes[i] : 0, n > 0 ? thr[i] : 0); cb->got(cb->ctx, i, sizes[i], thr[i], p[i].c); }
        p[i].i = (int*) p[i].c;
    }
    FREEA(none);
    for(i = 0; i < n; i++) {
        int k = order[i]; cb->freeing(cb->ctx, k, p[k].c);
        if(p[k].c == NULL) { FREEA(p[k].i); }
        else switch((i + (int) sizes[k]) % 5) {
            case 0: FREEA(n > 0 ? p[k].c : NULL); break;
            case 1: { char* before = p[k].c - k - 1; FREEA(before + k + 1); break; }
            case 2: { int* before = p[k].i - 2; FREEA(before + 2); break; }
            case 3: pp = &p[k].c; FREEA(*pp); break;
            default: FREEA((p + k)->i); break;
        }
        cb->freed(cb->ctx, k);
    }
}
void shm_scenario(int kind, const size_t* sizes, const size_t* thr, int n, const int* order, SHM_CB* cb) {
    if(n > MAXM) n = MAXM;
    switch(kind) {
        case 0: shm_loop_default(sizes, n, order, cb); break;
        case 1: shm_loop_thr(sizes, thr, n, order, cb); break;
        case 2: shm_interleaved(sizes, n, cb); break;
        case 3: shm_recursive(sizes, 0, n, cb); break;
        case 4: shm_names(sizes, n, cb); break;
        case 5: shm_args(sizes, thr, n, order, cb); break;
        default: shm_expr(sizes, thr, n, order, cb); break;
    }
}
void sh_memchunk_static0(void* c) { MEMCHUNK x = MEMCHUNK_INITIALIZER(0); *(MEMCHUNK*) c = x; }
void sh_memchunk_static(void* c, size_t bs) { MEMCHUNK x = MEMCHUNK_INITIALIZER(bs); *(MEMCHUNK*) c = x; }
size_t sh_memchunk_sizeof(void) { return sizeof(MEMCHUNK); }
