// HTABLE, RBTREE and the three list flavours against plain container models.
#include "util.h"
#include <climits>
#include "shim.h"
#include "data/htable.h"
#include "data/rbtree.h"
#include "data/list.h"
#include <set>
#include <algorithm>
#include <cmath>
extern "C" int rbtree_verify(RBTREE*) __attribute__((weak));

namespace {

// ------------------------------------------------------------------ HTABLE
struct HtMachine;
struct HNode { u64 guard0; HTABLE_NODE node; u64 key; HtMachine* own; u64 guard1; int tbl; bool probe; };
static const u64 G0 = 0x1122334455667788ull, G1 = 0x99aabbccddeeff01ull;

struct HtMachine : Machine {
    enum { H_INSERT, H_UNSAFE, H_REMOVE, H_LOOKUP, H_BULK_INS, H_BULK_REM, H_FINI, H_VERIFY, H_MOVE, H_N };
    HTABLE* t[2];
    std::map<u64, HNode*> m[2];
    std::map<HNode*, int> dtor_seen; int dtor_tbl = -1;
    i64 hmode, univ;
    static HNode* of(const HTABLE_NODE* n) { return HTABLE_DATA(n, HNode, node); }
    static u32 hash_of(i64 mode, u64 k) {
        switch(mode) {
            case 0: return 7;                               // everything collides
            case 1: return (u32) k;
            case 2: return (u32) (k * 59);                  // collides in the smallest plane only
            case 3: return (u32) (k % 3);
            case 4: return 0xffffffffu - (u32) k;
            case 5: return (u32) (k << 25) ^ (u32) k;
            case 6: return (u32) (k * 118 + (k & 1) * 59);
            case 8: { static const u32 sp[] = {0x80000000u, 0x7fffffffu, 0, 0xffffffffu, 0x80000001u, 1, 0xfffffffeu, 0xffff0000u, 0x0000ffffu, 0x10000u, 0x80000000u + 59, 0u - 59};
                      return sp[mix2(k, 5) % 12] + (u32) (mix2(k, 6) % 3 == 0 ? mix2(k, 7) % 59 : 0); }
            default: return (u32) mix2(k, 99);
        }
    }
    void chk_node(const HNode* n) {
        chk_mem(n, sizeof(HNode), "node handed to a callback");
        CHECK(n->guard0 == G0 && n->guard1 == G1, "content", "a node handed to a callback is not one of the caller's nodes");
        if(!n->probe) { auto it = m[n->tbl].find(n->key); CHECK(it != m[n->tbl].end() && it->second == n, "content", "callback got a node which is not in the table (key %llu)", (unsigned long long) n->key); }
    }
    static int cmp(const HTABLE_NODE* a, const HTABLE_NODE* b) {
        sim_point();
        HNode* x = of(a); HNode* y = of(b);
        x->own->chk_node(x); x->own->chk_node(y);
        if(x->key == y->key) return 0;
        u64 r = mix2(x->key, y->key);
        int mag = (int) (r % 3 == 0 ? 1 : r % 3 == 1 ? (r >> 8) % 1000 + 1 : 0x7fffffff);
        return (r >> 40) & 1 ? mag : mag == 0x7fffffff && (r >> 41) & 1 ? INT_MIN : -mag;
    }
    static u32 hash(const HTABLE_NODE* a) { sim_point(); HNode* x = of(a); x->own->chk_node(x); return hash_of(x->own->hmode, x->key); }
    static HtMachine* dtor_own;
    HNode* mk(u64 key, int tbl, bool probe) {
        HNode* n = (HNode*) h_alloc(sizeof(HNode)); n->guard0 = G0; n->guard1 = G1; n->key = key; n->own = this; n->tbl = tbl; n->probe = probe; return n;
    }
    void drop(HNode* n) { CHECK(n->guard0 == G0 && n->guard1 == G1, "content", "library wrote outside the node part of the caller's structure"); h_free(n); }
    static void dtor(HTABLE_NODE* a) {
        sim_point();
        HNode* x = of(a); x->own->chk_node(x); HtMachine* s = x->own;
        CHECK(x->tbl == s->dtor_tbl, "content", "destructor called for a node of another table");
        log_result(1);
        s->m[x->tbl].erase(x->key);
        s->drop(x);
    }
    void gen_cfg(Rng& g, Plan& p) override {
        p.cfg[C_P0] = g.below(9);
        static const i64 un[] = {12, 70, 130, 250, 500, 1200};
        p.cfg[C_P1] = un[g.below(6)];
        if(p.cfg[C_P0] == 0 || p.cfg[C_P0] == 3) p.cfg[C_P1] = std::min<i64>(p.cfg[C_P1], 250);
    }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[H_N] = {30, 6, 22, 18, 7, 6, 2, 4, 3}; int tot = 0; for(int w : wt) tot += w;
        int grow = (int) g.below(3);
        i64 U = p.cfg[C_P1];
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), c = 0; while(r >= wt[c]) r -= wt[c++];
            if(c == H_REMOVE && grow == 1 && g.chance(1, 2)) c = H_INSERT;
            o.code = c; o.a[0] = g.chance(5, 6) ? 0 : 1; o.a[1] = (i64) g.below(U);
            static const i64 th[] = {58, 59, 60, 118, 176, 177, 178, 412, 413, 414, 44, 14, 15, 103, 221, 884, 885, 886};
            o.a[2] = g.chance(1, 2) ? th[g.below(18)] : (i64) g.below(120);
            o.a[3] = g.below(4); o.salt = g.next();
            o.fail = (c == H_LOOKUP || c == H_VERIFY) ? 0 : gen_fail(g, heavy);
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == H_LOOKUP || op.code == H_VERIFY; }
    void start() override {
        hmode = plan->cfg[C_P0]; univ = plan->cfg[C_P1]; if(univ < 1) univ = 1; if(hmode < 0) hmode = 0;
        for(int i = 0; i < 2; i++) { t[i] = (HTABLE*) h_alloc(sizeof(HTABLE)); if(i) sh_htable_init_static(t[i]); else sh_htable_init(t[i]); }
    }
    void lookup(int k, u64 key) {
        HNode* pr = mk(key, k, true);
        HTABLE_NODE* n = htable_lookup(t[k], &pr->node, cmp, hash);
        h_free(pr);
        auto it = m[k].find(key);
        if(it == m[k].end()) CHECK(n == nullptr, "content", "lookup finds key %llu which is not in the table", (unsigned long long) key);
        else CHECK(n == &it->second->node, "content", "lookup of key %llu gives %s", (unsigned long long) key, n ? "another node" : "nothing although it was inserted");
        log_result(n ? key + 1 : 0);
    }
    void verify(int k, u64 salt, bool all) {
        CHECK((sh_htable_is_empty(t[k]) != 0) == m[k].empty(), "content", "table emptiness is misreported with %zu nodes", m[k].size());
        if(all || m[k].size() <= 24) { std::vector<u64> ks; for(auto& e : m[k]) ks.push_back(e.first); for(u64 x : ks) lookup(k, x); }
        else for(int i = 0; i < 5; i++) lookup(k, mix2(salt, i) % univ);
    }
    int insert(int k, u64 key, bool unsafe, bool again = false) {
        bool dup = m[k].count(key);
        if(unsafe && dup) return R_OK;
        if(dup && again) {      // the very node which is in the table already
            int q = htable_insert(t[k], &m[k][key]->node, cmp, hash); log_result((u64) q);
            CHECK(q == -1, "content", "inserting the node with key %llu, which is in the table already, was accepted", (unsigned long long) key); return R_OK;
        }
        HNode* n = mk(key, k, true);
        int nf0 = opctx().nfailed;
        int r = unsafe ? htable_insert_unsafe(t[k], &n->node, cmp, hash) : htable_insert(t[k], &n->node, cmp, hash);
        log_result((u64) r);
        if(dup) {
            CHECK(r == -1, "content", "inserting a second node with key %llu was accepted", (unsigned long long) key);
            drop(n); return R_OK;
        }
        if(r != 0) { CHECK(opctx().nfailed > nf0, "spurious-fail", "inserting new key %llu failed although no allocation failed (%zu nodes)", (unsigned long long) key, m[k].size()); drop(n); return R_FAULTED; }
        n->probe = false; m[k][key] = n;
        return R_OK;
    }
    void remove(int k, u64 key, bool self = false) {
        HNode* pr = self && m[k].count(key) ? nullptr : mk(key, k, true);      // sometimes the node itself is the key
        HTABLE_NODE* n = htable_remove(t[k], pr ? &pr->node : &m[k][key]->node, cmp, hash);
        if(pr) h_free(pr);
        auto it = m[k].find(key);
        log_result(n != nullptr);
        if(it == m[k].end()) { CHECK(n == nullptr, "content", "removing absent key %llu returned a node", (unsigned long long) key); return; }
        CHECK(n == &it->second->node, "content", "removing key %llu returned %s", (unsigned long long) key, n ? "another node" : "nothing although it is present");
        HNode* x = it->second; m[k].erase(it); drop(x);
    }
    void fini(int k, int how) {
        size_t n = m[k].size(); (void) n;
        if(how == 0) {
            // no destructor: the caller frees the nodes himself, before or after
            htable_fini(t[k], nullptr);
            std::vector<HNode*> v; for(auto& e : m[k]) v.push_back(e.second); m[k].clear(); for(auto x : v) drop(x);
        } else {
            dtor_tbl = k;
            htable_fini(t[k], dtor);
            dtor_tbl = -1;
            CHECK(m[k].empty(), "content", "fini did not pass %zu of %zu nodes to the destructor", m[k].size(), n);
        }
    }
    int exec(const Op& op) override {
        int k = (int) idx(op.a[0], 2); u64 key = idx(op.a[1], univ);
        switch(op.code) {
            case H_INSERT: case H_UNSAFE: { int r = insert(k, key, op.code == H_UNSAFE, op.salt & 16); lookup(k, key); verify(k, op.salt, false); return r; }
            case H_REMOVE: {
                if((op.a[3] & 1) && !m[k].empty()) { auto it = m[k].lower_bound(key); if(it == m[k].end()) it = m[k].begin(); key = it->first; }
                remove(k, key, op.salt & 32); lookup(k, key); verify(k, op.salt, false); return R_OK;
            }
            case H_LOOKUP: lookup(k, key); return R_OK;
            case H_BULK_INS: {
                // grow to exactly a[2] nodes
                bool f = false; size_t want = std::min<size_t>((size_t) op.a[2], (size_t) univ); u64 x = key;
                for(i64 i = 0; i < univ && m[k].size() < want; i++) { if(insert(k, x, (op.a[3] & 1) != 0) == R_FAULTED) { f = true; if(op.a[3] & 2) break; } x = (x + 1) % univ; }
                verify(k, op.salt, true); return f ? R_FAULTED : R_OK;
            }
            case H_BULK_REM: {
                size_t keep = m[k].size() ? (size_t) op.a[2] % (m[k].size() + 1) : 0;
                u64 s = op.salt;
                while(m[k].size() > keep) { u64 x; if(op.a[3] & 1) { s = mix2(s, 1); auto it = m[k].lower_bound(s % univ); if(it == m[k].end()) it = m[k].begin(); x = it->first; } else x = m[k].begin()->first; remove(k, x, op.salt & 64); }
                verify(k, op.salt, true); return R_OK;
            }
            case H_FINI: {
                fini(k, (int) (op.a[3] != 0));
                CHECK(sh_htable_is_empty(t[k]), "content", "table is not empty after fini");
                if(op.a[3] & 2) { memset((void*) t[k], 0xdb, sizeof(HTABLE)); sh_htable_init(t[k]); }
                verify(k, op.salt, true); return R_OK;
            }
            case H_MOVE: {   // a node taken out of one table goes into the other
                int k2 = 1 - k; if(m[k].empty()) return R_OK;
                auto it = m[k].lower_bound(key); if(it == m[k].end()) it = m[k].begin();
                u64 x = it->first; remove(k, x, op.salt & 32); int r = m[k2].count(x) ? (int) R_OK : insert(k2, x, false);
                verify(k, op.salt, false); verify(k2, op.salt, false); return r;
            }
            default: verify(k, op.salt, true); return R_OK;
        }
    }
    void finish() override { for(int k = 0; k < 2; k++) { verify(k, 5, true); fini(k, 1); h_free(t[k]); } }
    u64 state_hash() override { u64 h = 3 + hmode; for(int k = 0; k < 2; k++) { h = mix2(h, m[k].size()); int c = 0; for(auto& e : m[k]) { if(++c > 8) break; h = mix2(h, e.first); } } return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"insert", "insert_unsafe", "remove", "lookup", "grow to", "shrink to", "fini", "verify", "move a node"};
        char b[120]; snprintf(b, sizeof b, "htable[%zu] %s key=%lld count=%lld (hash mode %lld)", idx(op.a[0], 2), nm[op.code % H_N], (long long) op.a[1], (long long) op.a[2], (long long) hmode); return b;
    }
};

// ------------------------------------------------------------------ RBTREE
struct RbMachine;
struct RNode { u64 guard0; RBTREE_NODE node; u64 key; RbMachine* own; u64 guard1; bool probe; };
struct RbMachine : Machine {
    enum { T_INSERT, T_REMOVE, T_LOOKUP, T_WALK, T_FULL, T_BULK_INS, T_BULK_REM, T_DRAIN, T_ABANDON, T_VERIFY, T_N };
    RBTREE* t; std::map<u64, RNode*> m; i64 univ; bool draining = false;
    static RNode* of(const RBTREE_NODE* n) { return RBTREE_DATA(n, RNode, node); }
    struct Cnt { u64 v; } ;
    u64 ncmp[10] = {0};
    static int cmp(const RBTREE_NODE* a, const RBTREE_NODE* b) {
        sim_point();
        RNode* x = of(a); RNode* y = of(b);
        chk_mem(x, sizeof(RNode), "node handed to the comparator"); chk_mem(y, sizeof(RNode), "node handed to the comparator");
        CHECK(x->guard0 == G0 && x->guard1 == G1 && y->guard0 == G0 && y->guard1 == G1, "content", "comparator got something which is not a node of the caller");
        RbMachine* s = x->own;
        RNode* two[2] = {x, y};
        for(RNode* n : two) if(!n->probe) { auto it = s->m.find(n->key); CHECK(it != s->m.end() && it->second == n, "content", "comparator got a node which is not in the tree"); }
        s->ncmp[cur_task() & 7]++;
        if(x->key == y->key) return 0;
        u64 r = mix2(x->key, y->key);
        int mag = (int) (r % 4 == 0 ? 1 : r % 4 == 1 ? (r >> 8) % 1000 + 1 : r % 4 == 2 ? 256 << (r % 20) : 0x7fffffff);
        return x->key < y->key ? (mag == 0x7fffffff && (r >> 40) & 1 ? INT_MIN : -mag) : mag;
    }
    RNode* mk(u64 key, bool probe) { RNode* n = (RNode*) h_alloc(sizeof(RNode)); n->guard0 = G0; n->guard1 = G1; n->key = key; n->own = this; n->probe = probe; return n; }
    void drop(RNode* n) { CHECK(n->guard0 == G0 && n->guard1 == G1, "content", "library wrote outside the node part of the caller's structure"); h_free(n); }
    void gen_cfg(Rng& g, Plan& p) override { static const i64 un[] = {6, 15, 40, 120, 400, 1500}; p.cfg[C_P0] = un[g.below(6)]; }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[T_N] = {34, 30, 10, 12, 4, 4, 4, 1, 1, 3}; int tot = 0; for(int w : wt) tot += w;
        i64 U = p.cfg[C_P0];
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), c = 0; while(r >= wt[c]) r -= wt[c++];
            o.code = c; o.a[0] = (i64) g.below(U); o.a[1] = (i64) g.below(U + 1); o.a[2] = (i64) g.below(8); o.a[3] = (i64) g.below(60); o.salt = g.next();
            p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == T_LOOKUP || op.code == T_WALK || op.code == T_FULL; }
    void start() override { univ = plan->cfg[C_P0]; if(univ < 1) univ = 1; t = (RBTREE*) h_alloc(sizeof(RBTREE)); if(plan->cfg[C_SALT] & 1) sh_rbtree_init_static(t); else sh_rbtree_init(t); }
    // Comparisons an operation may take among n nodes: a few descents of a red-black tree.
    void bound(size_t n, const char* what) {
        u64 c = ncmp[cur_task() & 7];
        u64 lim = (u64) (8.0 * std::log2((double) n + 2.0) + 8.0);
        CHECK(c <= lim, "balance", "%s made %llu comparisons in a tree of %zu nodes (at most %llu if it is balanced)", what, (unsigned long long) c, n, (unsigned long long) lim);
    }
    void cnt0() { ncmp[cur_task() & 7] = 0; }
    void structure() {
        CHECK((sh_rbtree_is_empty(t) != 0) == m.empty(), "content", "tree emptiness is misreported with %zu nodes", m.size());
        if(rbtree_verify) CHECK(rbtree_verify(t) == 0, "balance", "red-black rules are broken with %zu nodes", m.size());
    }
    void full(bool backward) {
        RBTREE_CURSOR* c = (RBTREE_CURSOR*) h_alloc(sizeof(RBTREE_CURSOR)); sh_rbcursor_init(c);
        CHECK(rbtree_current(c) == nullptr, "content", "a fresh cursor points somewhere");
        if(m.empty()) { CHECK((backward ? rbtree_tail(t, c) : rbtree_head(t, c)) == nullptr, "content", "head or tail of an empty tree is not NULL"); h_free(c); return; }
        if(!backward) {
            auto it = m.begin(); RBTREE_NODE* n = rbtree_head(t, c);
            for(; it != m.end(); ++it) {
                CHECK(n == &it->second->node, "content", "forward walk: expected key %llu", (unsigned long long) it->first);
                CHECK(rbtree_current(c) == n, "content", "cursor does not point at the node the walk returned");
                n = rbtree_next(c);
            }
            CHECK(n == nullptr, "content", "forward walk does not end after the greatest key");
            CHECK(rbtree_current(c) == &m.rbegin()->second->node, "content", "next() past the end moved the cursor");
            CHECK(rbtree_next(c) == nullptr, "content", "next() past the end, again");
        } else {
            auto it = m.rbegin(); RBTREE_NODE* n = rbtree_tail(t, c);
            for(; it != m.rend(); ++it) {
                CHECK(n == &it->second->node, "content", "backward walk: expected key %llu", (unsigned long long) it->first);
                CHECK(rbtree_current(c) == n, "content", "cursor does not point at the node the walk returned");
                n = rbtree_prev(c);
            }
            CHECK(n == nullptr, "content", "backward walk does not end before the smallest key");
            CHECK(rbtree_current(c) == &m.begin()->second->node, "content", "prev() past the end moved the cursor");
        }
        log_result(m.size());
        h_free(c);
    }
    void lookup(u64 key) {
        RNode* pr = mk(key, true); cnt0();
        RBTREE_NODE* n = rbtree_lookup(t, &pr->node, cmp);
        bound(m.size(), "lookup"); h_free(pr);
        auto it = m.find(key);
        if(it == m.end()) CHECK(!n, "content", "lookup finds absent key %llu", (unsigned long long) key);
        else CHECK(n == &it->second->node, "content", "lookup of key %llu gives %s", (unsigned long long) key, n ? "another node" : "nothing although it was inserted");
        log_result(n != nullptr);
    }
    void insert(u64 key, bool again = false) {
        if(again && m.count(key)) {    // the very node which is in the tree already
            RNode* o = m[key]; cnt0(); int q = rbtree_insert(t, &o->node, cmp); bound(m.size(), "insert"); log_result((u64) q);
            CHECK(q == -1, "content", "inserting the node with key %llu, which is in the tree already, was accepted", (unsigned long long) key); return;
        }
        bool dup = m.count(key); RNode* n = mk(key, true); cnt0();
        int r = rbtree_insert(t, &n->node, cmp);
        bound(m.size(), "insert"); log_result((u64) r);
        if(dup) { CHECK(r == -1, "content", "inserting a second node with key %llu was accepted", (unsigned long long) key); drop(n); return; }
        CHECK(r == 0, "spurious-fail", "inserting new key %llu failed", (unsigned long long) key);
        n->probe = false; m[key] = n;
    }
    void remove(u64 key, bool self = false) {
        RNode* pr = self && m.count(key) ? nullptr : mk(key, true); cnt0();      // sometimes the node itself is the key
        RBTREE_NODE* n = rbtree_remove(t, pr ? &pr->node : &m[key]->node, cmp);
        bound(m.size(), "remove"); if(pr) h_free(pr); log_result(n != nullptr);
        auto it = m.find(key);
        if(it == m.end()) { CHECK(!n, "content", "removing absent key %llu returned a node", (unsigned long long) key); return; }
        CHECK(n == &it->second->node, "content", "removing key %llu returned %s", (unsigned long long) key, n ? "another node" : "nothing although it is present");
        RNode* x = it->second; m.erase(it); drop(x);
    }
    void drain(bool now) {
        size_t n0 = m.size(); std::vector<RNode*> late; size_t k = 0;
        for(;;) {
            RBTREE_NODE* n = rbtree_fini_step(t);
            if(!n) break;
            CHECK(++k <= n0, "content", "fini_step returns more nodes than the tree holds");
            RNode* x = of(n); chk_mem(x, sizeof(RNode), "node returned by fini_step");
            auto it = m.find(x->key);
            CHECK(it != m.end() && it->second == x, "content", "fini_step returns something which is not in the tree (any more)");
            m.erase(it);
            if(now) drop(x); else late.push_back(x);
        }
        CHECK(m.empty(), "content", "fini_step ended with %zu of %zu nodes left", m.size(), n0);
        CHECK(sh_rbtree_is_empty(t), "content", "tree is not empty after fini_step returned NULL");
        CHECK(rbtree_fini_step(t) == nullptr, "content", "fini_step on an empty tree");
        for(RNode* x : late) drop(x);
        log_result(n0);
    }
    int exec(const Op& op) override {
        u64 key = idx(op.a[0], univ);
        switch(op.code) {
            case T_INSERT: insert(key, op.salt & 16); structure(); lookup(key); if(m.size() < 40) full(op.salt & 1); return R_OK;
            case T_REMOVE:
                if((op.a[2] & 3) && !m.empty()) { auto it = m.lower_bound(key); if(it == m.end()) it = m.begin(); key = it->first; }
                remove(key, op.salt & 32); structure(); lookup(key); if(m.size() < 40) full(op.salt & 1); return R_OK;
            case T_LOOKUP: lookup(key); return R_OK;
            case T_WALK: {
                RBTREE_CURSOR* c = (RBTREE_CURSOR*) h_alloc(sizeof(RBTREE_CURSOR)); sh_rbcursor_init(c);
                std::map<u64, RNode*>::iterator it; RBTREE_NODE* n;
                if(m.empty()) { h_free(c); return R_OK; }
                if((op.a[2] & 3) == 0) { n = rbtree_head(t, c); it = m.begin(); }
                else if((op.a[2] & 3) == 1) { n = rbtree_tail(t, c); it = --m.end(); }
                else {
                    RNode* pr = mk(key, true); cnt0(); n = rbtree_lookup_ex(t, &pr->node, cmp, c); bound(m.size(), "lookup_ex"); h_free(pr);
                    it = m.find(key);
                    if(it == m.end()) { CHECK(!n, "content", "lookup_ex finds absent key %llu", (unsigned long long) key); CHECK(!rbtree_current(c) && !rbtree_next(c) && !rbtree_prev(c) && !rbtree_current(c), "content", "the cursor points somewhere after looking up absent key %llu", (unsigned long long) key); h_free(c); return R_OK; }
                }
                CHECK(n == &it->second->node, "content", "the walk starts at the wrong node");
                u64 s = op.salt;
                for(i64 k = 0; k < op.a[3] && k < 200; k++) {
                    if((k & 31) == 0) s = mix2(s, k);
                    bool fwd = (s >> (k & 31)) & 1; if(op.a[2] & 4) fwd = (s >> ((k / 8) & 31)) & 1;
                    if(fwd) { n = rbtree_next(c); if(std::next(it) == m.end()) CHECK(!n, "content", "next() at the greatest key returned a node"); else { ++it; CHECK(n == &it->second->node, "content", "next() skipped or repeated a node before key %llu", (unsigned long long) it->first); } }
                    else { n = rbtree_prev(c); if(it == m.begin()) CHECK(!n, "content", "prev() at the smallest key returned a node"); else { --it; CHECK(n == &it->second->node, "content", "prev() skipped or repeated a node after key %llu", (unsigned long long) it->first); } }
                    CHECK(rbtree_current(c) == &it->second->node, "content", "cursor does not point where the walk is");
                    log_result(it->first);
                }
                h_free(c); return R_OK;
            }
            case T_FULL: full(op.salt & 1); return R_OK;
            case T_BULK_INS: {
                size_t n = (size_t) (op.a[1] % (univ + 1)); u64 x = key;
                for(size_t i = 0; i < n; i++) {
                    insert(x);
                    switch(op.a[2] % 4) { case 0: x = (x + 1) % univ; break; case 1: x = (x + univ - 1) % univ; break; case 2: x = mix2(op.salt, i) % univ; break; default: x = (i & 1) ? (key + i / 2) % univ : (key + univ - 1 - (i / 2) % univ) % univ; }
                    if((i & 7) == 0) structure();
                }
                structure(); full(op.salt & 1); return R_OK;
            }
            case T_BULK_REM: {
                size_t n = (size_t) (op.a[1] % (m.size() + 1)); u64 s = op.salt;
                for(size_t i = 0; i < n && !m.empty(); i++) {
                    s = mix2(s, i); std::map<u64, RNode*>::iterator it;
                    switch(op.a[2] % 4) { case 0: it = m.begin(); break; case 1: it = --m.end(); break; default: it = m.lower_bound(s % univ); if(it == m.end()) it = m.begin(); }
                    remove(it->first, op.salt & 64);
                    if((i & 7) == 0) structure();
                }
                structure(); full(op.salt & 1); return R_OK;
            }
            case T_DRAIN: drain(op.a[2] & 1); structure(); return R_OK;
            case T_ABANDON: { std::vector<RNode*> v; for(auto& e : m) v.push_back(e.second); m.clear(); for(RNode* x : v) drop(x); sh_rbtree_init(t); structure(); return R_OK; }
            default: structure(); full(false); full(true); for(auto& e : std::vector<std::pair<u64, RNode*>>(m.begin(), m.end())) lookup(e.first); return R_OK;
        }
    }
    void finish() override { structure(); full(false); full(true); drain(plan->cfg[C_SALT] & 2); h_free(t); }
    u64 state_hash() override { u64 h = 4; h = mix2(h, m.size()); int c = 0; for(auto& e : m) { if(++c > 12) break; h = mix2(h, e.first); } return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"insert", "remove", "lookup", "walk", "full walk", "bulk insert", "bulk remove", "drain", "abandon", "verify"};
        char b[120]; snprintf(b, sizeof b, "rbtree %s key=%lld n=%lld mode=%lld steps=%lld", nm[op.code % T_N], (long long) op.a[0], (long long) op.a[1], (long long) op.a[2], (long long) op.a[3]); return b;
    }
};

// ------------------------------------------------------------------- lists
struct ListMachine : Machine {
    enum { L_APPEND, L_PREPEND, L_AFTER, L_BEFORE, L_REMOVE, L_RMHEAD, L_RMTAIL, L_MOVE, L_REVERSE, L_CLEAR, L_READ, L_N };
    enum { NLIST = 4 };             // LIST, SLIST, QLIST, and a second LIST
    static int kind(int i) { return i == 3 ? 0 : i; }
    void* l[NLIST]; std::vector<void*> m[NLIST];     // enclosing structures, in order
    u64 serial = 0;
    static const size_t PADS = 48;
    size_t esz(int k) { return PADS + 32 + 8; }
    // caller's element: [u64 serial]... node at the offset its list kind uses ... [u64 guard]
    void* mk(int k) {
        size_t off = shl_data_off(k), ns = shl_node_sizeof(k);
        u8* e = (u8*) h_alloc(off + ns + 16);
        u64 id = ++serial; u8* g = e + off + ns; memcpy(g, &id, 8); u64 gg = id ^ G1; memcpy(g + 8, &gg, 8);
        for(size_t i = 0; i < off; i++) e[i] = (u8) (id * 31 + i);
        return e;
    }
    void* node(int k, void* e) { return (u8*) e + shl_data_off(k); }
    void intact(int k, void* e) {
        size_t off = shl_data_off(k), ns = shl_node_sizeof(k); chk_mem(e, off + ns + 16, "list element"); u64 id, gg; memcpy(&id, (u8*) e + off + ns, 8); memcpy(&gg, (u8*) e + off + ns + 8, 8);
        bool ok = gg == (id ^ G1); for(size_t i = 0; i < off; i++) ok = ok && ((u8*) e)[i] == (u8) (id * 31 + i);
        CHECK(ok, "content", "library wrote outside the node part of the caller's structure");
    }
    void drop(int k, void* e) { intact(k, e); h_free(e); }
    void gen_ops(Rng& g, Plan& p, int task, int nops, int heavy) override {
        static const int wt[L_N] = {20, 14, 16, 10, 14, 7, 7, 6, 1, 1, 6}; int tot = 0; for(int w : wt) tot += w;
        for(int i = 0; i < nops; i++) {
            Op o; o.task = task; int r = (int) g.below(tot), c = 0; while(r >= wt[c]) r -= wt[c++];
            o.code = c; o.a[0] = (i64) g.below(NLIST); o.a[1] = g.chance(1, 5) ? 0 : g.chance(1, 4) ? -1 : (i64) (g.next() >> 1); o.a[2] = (i64) g.below(4); o.salt = g.next(); p.ops.push_back(o);
        }
    }
    bool is_reader(const Op& op) override { return op.code == L_READ; }
    void start() override { for(int i = 0; i < NLIST; i++) { l[i] = h_alloc(shl_sizeof(kind(i))); shl_init(kind(i), l[i]); } }
    void verify(int i) {
        int k = kind(i); auto& v = m[i];
        CHECK((shl_is_empty(k, l[i]) != 0) == v.empty(), "content", "list emptiness is misreported with %zu nodes", v.size());
        const void* end = shl_end(k, l[i]);
        void* n = shl_head(k, l[i]);
        for(size_t q = 0; q < v.size(); q++) {
            CHECK(n != end, "content", "forward traversal ends after %zu of %zu nodes", q, v.size());
            CHECK(n == node(k, v[q]), "content", "forward traversal: node %zu of %zu is not the expected one", q, v.size());
            CHECK(shl_data(k, n) == v[q], "content", "DATA macro does not give the enclosing structure");
            intact(k, v[q]);
            n = shl_next(k, n);
        }
        CHECK(n == end, "content", "forward traversal does not end after %zu nodes", v.size());
        if(k != 1 && !v.empty()) CHECK(shl_tail(k, l[i]) == node(k, v.back()), "content", "tail is not the last node");
        if(k == 0) {
            if(v.empty()) { CHECK(shl_head(k, l[i]) == (void*) end && shl_tail(k, l[i]) == (void*) end, "content", "head or tail of an empty list is not its end"); }
            n = shl_tail(k, l[i]);
            for(size_t q = v.size(); q-- > 0;) { CHECK(n == node(k, v[q]), "content", "backward traversal: node %zu of %zu is not the expected one", q, v.size()); n = shl_prev(n); }
            CHECK(n == end, "content", "backward traversal does not end at the head");
        }
        log_result(v.size());
    }
    int exec(const Op& op) override {
        int i = (int) idx(op.a[0], NLIST), k = kind(i); auto& v = m[i]; void* L = l[i];
        size_t at = v.empty() ? 0 : op.a[1] == -1 ? v.size() - 1 : idx(op.a[1], v.size());
        switch(op.code) {
            case L_APPEND: { if(k == 1) break; void* e = mk(k); shl_append(k, L, node(k, e)); v.push_back(e); break; }
            case L_PREPEND: { void* e = mk(k); shl_prepend(k, L, node(k, e)); v.insert(v.begin(), e); break; }
            case L_AFTER: { if(v.empty()) break; void* e = mk(k); shl_insert_after(k, L, node(k, v[at]), node(k, e)); v.insert(v.begin() + at + 1, e); break; }
            case L_BEFORE: { if(v.empty() || k != 0) break; void* e = mk(k); shl_insert_before(L, node(k, v[at]), node(k, e)); v.insert(v.begin() + at, e); break; }
            case L_REMOVE: {
                if(v.empty()) break;
                if(k != 0 && at == 0) { if(v.size() < 2) break; at = 1; }   // needs a predecessor
                void* e = v[at]; shl_remove(k, L, at ? node(k, v[at - 1]) : nullptr, node(k, e)); v.erase(v.begin() + at); drop(k, e); break;
            }
            case L_RMHEAD: { if(v.empty()) break; void* e = v[0]; shl_remove_head(k, L); v.erase(v.begin()); drop(k, e); break; }
            case L_RMTAIL: { if(v.empty() || k != 0) break; void* e = v.back(); shl_remove_tail(L); v.pop_back(); drop(k, e); break; }
            case L_MOVE: {   // between the two doubly linked lists, reusing the node
                if(k != 0 || v.empty()) break;
                int j = i == 0 ? 3 : 0; void* e = v[at]; shl_remove(0, L, nullptr, node(0, e)); v.erase(v.begin() + at);
                size_t to = m[j].empty() ? 0 : idx((i64) (op.salt >> 1), m[j].size());
                switch(op.a[2]) {
                    case 0: shl_append(0, l[j], node(0, e)); m[j].push_back(e); break;
                    case 1: shl_prepend(0, l[j], node(0, e)); m[j].insert(m[j].begin(), e); break;
                    default: if(m[j].empty()) { shl_append(0, l[j], node(0, e)); m[j].push_back(e); } else if(op.a[2] == 2) { shl_insert_after(0, l[j], node(0, m[j][to]), node(0, e)); m[j].insert(m[j].begin() + to + 1, e); } else { shl_insert_before(l[j], node(0, m[j][to]), node(0, e)); m[j].insert(m[j].begin() + to, e); }
                }
                verify(j); break;
            }
            case L_REVERSE: {   // pop everything, push it back in reverse
                std::vector<void*> w = v; while(!v.empty()) { shl_remove_head(k, L); v.erase(v.begin()); verify(i); }
                for(void* e : w) { shl_prepend(k, L, node(k, e)); v.insert(v.begin(), e); }
                break;
            }
            case L_CLEAR: { std::vector<void*> w; w.swap(v); for(void* e : w) drop(k, e); shl_init(k, L); break; }
            default: break;
        }
        verify(i);
        return R_OK;
    }
    void finish() override { for(int i = 0; i < NLIST; i++) { verify(i); while(!m[i].empty()) { void* e = m[i][0]; shl_remove_head(kind(i), l[i]); m[i].erase(m[i].begin()); drop(kind(i), e); } verify(i); h_free(l[i]); } }
    u64 state_hash() override { u64 h = 5; for(auto& v : m) h = mix2(h, v.size()); return h; }
    std::string describe(const Op& op) override {
        static const char* nm[] = {"append", "prepend", "insert_after", "insert_before", "remove", "remove_head", "remove_tail", "move to another list", "reverse", "clear", "read"};
        static const char* kn[] = {"LIST", "SLIST", "QLIST", "LIST(2)"};
        char b[120]; snprintf(b, sizeof b, "%s %s at=%lld", kn[idx(op.a[0], NLIST)], nm[op.code % L_N], (long long) op.a[1]); return b;
    }
};
}
Machine* make_htable() { return new HtMachine; }
Machine* make_rbtree() { return new RbMachine; }
Machine* make_list() { return new ListMachine; }
