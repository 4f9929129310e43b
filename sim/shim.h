/* Thin C wrappers around the header-only parts of the library, so that they
 * are compiled with the same instrumentation as the library's own sources. */
#ifndef SHIM_H
#define SHIM_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
/* --- BUFFER --- */
size_t shb_sizeof(void);
void shb_init(void* b); void shb_init_static(void* b); void shb_fini(void* b);
size_t shb_size(const void* b); int shb_is_empty(const void* b);
const void* shb_cdata(const void* b); void* shb_data(void* b);
const void* shb_cdata_at(const void* b, size_t off); void* shb_data_at(void* b, size_t off);
int shb_realloc(void* b, size_t n); int shb_reserve(void* b, size_t n); void shb_shrink(void* b);
void* shb_insert_raw(void* b, size_t off, size_t n); int shb_insert(void* b, size_t off, const void* d, size_t n);
void* shb_append_raw(void* b, size_t n); int shb_append(void* b, const void* d, size_t n);
void shb_remove(void* b, size_t off, size_t n); void shb_clear(void* b);
void* shb_acquire(void* b, size_t* sz); void shb_swap(void* a, void* b);
/* --- STACK --- */
void shs_init(void* s); void shs_init_static(void* s); void shs_fini(void* s);
int shs_reserve(void* s, size_t n); size_t shs_size(const void* s); int shs_is_empty(const void* s);
const void* shs_cdata(const void* s); void* shs_data(void* s);
void* shs_push_raw(void* s, size_t n); int shs_push(void* s, const void* d, size_t n);
int shs_push_t(void* s, int type, uint64_t v); uint64_t shs_peek_t(const void* s, int type); uint64_t shs_pop_t(void* s, int type);
const void* shs_peek_raw(const void* s, size_t n); void shs_peek(const void* s, void* a, size_t n);
void* shs_pop_raw(void* s, size_t n); void shs_pop(void* s, void* a, size_t n);
void shs_clear(void* s); void* shs_acquire(void* s, size_t* sz); void shs_swap(void* a, void* b);
/* --- typed arrays; type: 0 int8 1 uint8 2 int16 3 uint16 4 int32 5 uint32 6 int64 7 uint64 8 ptr --- */
typedef struct SHA {
    size_t elem;
    void (*init)(void*); void (*init_static)(void*); void (*fini)(void*);
    const void* (*cdata)(const void*); void* (*data)(void*);
    size_t (*size)(const void*); int (*is_empty)(void*);
    uint64_t (*get)(const void*, size_t); void (*set)(void*, size_t, uint64_t);
    int (*insert_raw)(void*, size_t); int (*insert)(void*, size_t, uint64_t); int (*insert_n_raw)(void*, size_t, size_t);
    int (*append_raw)(void*); int (*append)(void*, uint64_t); int (*append_n)(void*, size_t);
    void (*remove)(void*, size_t); void (*remove_n)(void*, size_t, size_t);
    void* (*acquire)(void*, size_t*);
} SHA;
extern const SHA sh_arrays[9];
/* --- lists; kind: 0 LIST 1 SLIST 2 QLIST --- */
size_t shl_sizeof(int kind); size_t shl_node_sizeof(int kind);
void shl_init(int kind, void* l); int shl_is_empty(int kind, const void* l);
void* shl_head(int kind, const void* l); void* shl_tail(int kind, const void* l);
void* shl_next(int kind, const void* n); void* shl_prev(const void* n); const void* shl_end(int kind, const void* l);
void shl_insert_after(int kind, void* l, void* where, void* n); void shl_insert_before(void* l, void* where, void* n);
void shl_append(int kind, void* l, void* n); void shl_prepend(int kind, void* l, void* n);
void shl_remove(int kind, void* l, void* prev, void* n); void shl_remove_head(int kind, void* l); void shl_remove_tail(void* l);
void* shl_data(int kind, void* n); size_t shl_data_off(int kind);
/* --- HTABLE / RBTREE inline parts --- */
void sh_htable_init(void* t); void sh_htable_init_static(void* t); int sh_htable_is_empty(void* t);
void sh_rbtree_init(void* t); void sh_rbtree_init_static(void* t); int sh_rbtree_is_empty(const void* t); void sh_rbcursor_init(void* c);
/* --- MALLOCA scenarios --- */
typedef struct SHM_CB {
    void* ctx;
    /* called after every MALLOCA: request index, size, pointer */
    void (*got)(void* ctx, int i, size_t size, size_t threshold, void* p);
    /* called before/after every FREEA */
    void (*freeing)(void* ctx, int i, void* p);
    void (*freed)(void* ctx, int i);
} SHM_CB;
void shm_scenario(int kind, const size_t* sizes, const size_t* thr, int n, const int* order, SHM_CB* cb);
int shm_nkinds(void);
size_t shm_default_threshold(void);
void sh_memchunk_static0(void* c); void sh_memchunk_static(void* c, size_t bs); size_t sh_memchunk_sizeof(void);
#ifdef __cplusplus
}
#endif
#endif
