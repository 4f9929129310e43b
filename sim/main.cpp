// Search driver: generates plans from seeds, runs them, judges each run
// against a property, shrinks violations and replays them.
#include "util.h"
#include "props.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <atomic>
#include <algorithm>
#include <fstream>
#include <sstream>
#include <set>

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int machine_by_name(const char* n) { for(int i = 0; i < g_nmachines; i++) if(!strcmp(g_machines[i].name, n)) return i; fprintf(stderr, "no machine %s\n", n); exit(2); }

// ------------------------------------------------------------- shared stats
enum { BITS = 1 << 24, MAXW = 64 };
struct Shared {
    std::atomic<u64> runs, ops, faulted, steps, switches, preempt, nalloc, nf_mask, nf_quota, nf_big, skipped, nontrivial, det_checked, det_bad, sched_new, state_new;
    std::atomic<i64> min_viol;
    std::atomic<i64> cur_run[MAXW];
    std::atomic<u64> done[MAXW];
    std::atomic<u64> behav_new;
    std::atomic<u8> sched[BITS / 8], state[BITS / 8], behav[BITS / 8];
    u8 edges[65536];
};
static Shared* S;
static bool mark(std::atomic<u8>* bm, u64 h) { h = mix2(h, 3) % BITS; u8 b = 1 << (h & 7); return !(bm[h >> 3].fetch_or(b) & b); }

// ---------------------------------------------------------------- judgement
struct Verdict { bool bad = false; bool skipped = false; std::string cls, msg; u64 digest = 0; Outcome o; };

static bool owns(const PropDef& p, const std::string& cls) {
    if(cls == "internal") return false;
    if(p.classes[0] == '*') {
        // "*,-a,-b": everything except a and b
        return !strstr(p.classes, (",-" + cls + ",").c_str());
    }
    return strstr(p.classes, ("," + cls + ",").c_str()) != nullptr;
}
static Verdict judge(const PropDef& pd, const Plan& p) {
    Verdict v;
    if(pd.kind == K_REL || p.cfg[C_MODE] == MODE_ISOLATED) {
        // The same operations one after another; the property is about what
        // interleaving adds, so a plan that fails even then says nothing.
        Outcome ser = run_once(p, true);
        if(ser.violated) { v.skipped = true; v.o = ser; v.msg = ser.cls + ": " + ser.msg; return v; }
        Outcome o = run_once(p, false);
        v.o = o; v.digest = mix2(o.digest, ser.digest);
        if(o.violated) { v.bad = true; v.cls = o.cls; v.msg = "under an interleaved schedule (the same operations run one after another are fine): " + o.msg; return v; }
        for(size_t i = 0; i < o.task_digest.size() && i < ser.task_digest.size(); i++)
            if(o.task_digest[i] != ser.task_digest[i]) {
                v.bad = true; v.cls = "interference";
                char b[160]; snprintf(b, sizeof b, "task %zu observed different results under interleaving than on its own", i);
                v.msg = b; return v;
            }
        return v;
    }
    v.o = run_once(p, false);
    v.digest = v.o.digest;
    if(v.o.violated) {
        if(!owns(pd, v.o.cls)) { v.skipped = true; v.msg = v.o.cls + ": " + v.o.msg; return v; }
        if(pd.kind == K_RETRY && v.o.nfail_mask + v.o.nfail_quota + v.o.nfail_big == 0) { v.skipped = true; return v; }
        v.bad = true; v.cls = v.o.cls; v.msg = v.o.msg;
    }
    return v;
}

// ---------------------------------------------------------- plan generation
static void gen_slices(Rng& g, Plan& p, int nt, bool fine_ok) {
    p.slices.clear();
    if(nt < 2) return;
    int style = (int) g.below(fine_ok ? 7 : 3);
    size_t n = 40 + g.below(400);
    auto add = [&](int t, u32 q) { p.slices.push_back({t, q ? q : 1}); };
    switch(style) {
        case 0: for(size_t i = 0; i < n; i++) add((int) g.below(nt), 1 + (u32) g.below(400)); break;
        case 1: for(size_t i = 0; i < n; i++) add((int) (i % nt), 1 + (u32) g.below(3000)); break;
        case 2: for(size_t i = 0; i < 30; i++) add((int) g.below(nt), 100 + (u32) g.below(20000)); break;
        case 3: for(size_t i = 0; i < n * 4; i++) add((int) g.below(nt), 1 + (u32) g.below(12)); break;       // very fine
        case 4: for(size_t i = 0; i < n * 4; i++) add((int) (i % nt), 1 + (u32) g.below(3)); break;           // lock step
        case 5: {   // PCT-like: a priority order with few change points
            int d = 2 + (int) g.below(5); u64 horizon = 200ull << g.below(8);
            for(int i = 0; i < d; i++) add((int) g.below(nt), 1 + (u32) g.below(horizon));
            break;
        }
        default: {  // one slow task: everybody else runs between its single steps
            int slow = (int) g.below(nt);
            for(size_t i = 0; i < n; i++) { add(slow, 1 + (u32) g.below(4)); add((int) g.below(nt), 20 + (u32) g.below(300)); }
        }
    }
}
static Plan gen_plan(const PropDef& pd, u64 seed, i64 run, int tier) {
    u64 h = 0; for(const char* c = pd.id; *c; c++) h = h * 131 + (u8) *c;
    Rng g(mix2(mix2(seed, h), (u64) run));
    Plan p; p.prop = pd.id; p.seed = seed; p.run = run;
    int mode = pd.iso_pct && g.chance(pd.iso_pct, 100) ? (int) MODE_ISOLATED : pd.mode;
    p.cfg[C_MODE] = mode;
    p.cfg[C_SALT] = (i64) (g.next() >> 8);
    p.cfg[C_HEAP] = (i64) g.below(16);
    int nm = 0; while(pd.machines[nm]) nm++;
    int heavy = 0; bool outage = false;
    bool faults = !pd.no_faults;
    if(faults) {
        bool noq = pd.no_quota || mode == MODE_ISOLATED;
        u64 r = g.below(pd.more_faults ? 8 : 12);
        heavy = r < 2 ? 1 : r < 4 ? 2 : r < 5 ? 3 : r < 7 ? 1 : 0;
        outage = r == 5 || r == 6 || (pd.more_faults && r == 7);
        if(!noq && g.chance(1, 8)) p.cfg[C_QUOTA] = (i64) (200ull << g.below(14));
    }
    if(pd.kind == K_RETRY) p.cfg[C_RETRY] = 1;
    int nops;
    switch(g.below(6)) { case 0: nops = 2 + (int) g.below(8); break; case 1: case 2: nops = 8 + (int) g.below(40); break; case 5: nops = 60 + (int) g.below(tier ? 700 : 240); break; default: nops = 20 + (int) g.below(90); }
    nops = std::max(1, nops * pd.ops_pct / 100);
    int nt = 1;
    if(mode == MODE_SHARED || mode == MODE_FREE) {
        nt = pd.max_tasks > 1 && g.chance(pd.tasks_pct, 100) ? 2 + (int) g.below(pd.max_tasks - 1) : 1;
        int mi = machine_by_name(pd.machines[g.below(nm)]);
        p.cfg[C_MACH] = mi; p.cfg[C_TASKS] = nt;
        Machine* m = g_machines[mi].make(); m->plan = &p;
        m->gen_cfg(g, p);
        for(int t = 0; t < nt; t++) m->gen_ops(g, p, t, std::max(1, nops / nt), heavy);
        if(outage) for(int k = 0, w = 1 + (int) g.below(3); k < w; k++) {
            size_t a = g.below(p.ops.size()), l = 1 + g.below(12);
            for(size_t i = a; i < p.ops.size() && i < a + l; i++) if(!m->is_reader(p.ops[i])) p.ops[i].fail = 0xffffffffu;
        }
        delete m;
        gen_slices(g, p, nt, pd.fine);
    } else if(mode == MODE_ISOLATED) {
        nt = 2 + (int) g.below(3);
        p.cfg[C_TASKS] = nt; u64 mach = 0;
        int same = mode != pd.mode || g.chance(1, 2) ? (int) g.below(nm) : -1;    // same module in every task, or a mixture
        // Sometimes the tasks prepare in peace and then all make the same kind of call at the same time.
        int focus = g.chance(2, 5) ? 1 + (int) g.below(4) : 0; std::vector<int> codes;
        std::vector<int> mi;
        for(int t = 0; t < nt; t++) { int k = machine_by_name(pd.machines[same >= 0 ? same : g.below(nm)]); mi.push_back(k); mach |= (u64) k << (8 * t); }
        p.cfg[C_MACH] = (i64) mach;
        for(int t = 0; t < nt; t++) {
            Plan view; for(int k = 0; k < NCFG; k++) view.cfg[k] = p.cfg[k];
            Machine* m = g_machines[mi[t]].make(); m->plan = &view; m->inst = t;
            m->gen_cfg(g, view);
            for(int k = 0; k < 8; k++) p.cfg[C_INST + 8 * t + k] = view.cfg[C_P0 + k];
            m->gen_ops(g, view, t, std::max(1, nops / 2 / nt), heavy);
            if(focus) {
                for(auto& o : view.ops) o.warm = true;
                if(focus > 1) {
                    std::vector<Op> keep; keep.swap(view.ops);
                    size_t want = 1 + g.below(4), got = 0;
                    for(int guard = 0; guard < 30 && got < want; guard++) {
                        view.ops.clear(); m->gen_ops(g, view, t, 10, heavy);
                        if(codes.empty() && !view.ops.empty()) for(int k = 0; k < focus - 1; k++) codes.push_back(view.ops[g.below(view.ops.size())].code);
                        for(auto& o : view.ops) if(got < want && std::find(codes.begin(), codes.end(), o.code) != codes.end()) { keep.push_back(o); got++; }
                        if(same < 0) codes.clear();
                    }
                    keep.swap(view.ops);
                }
            }
            p.ops.insert(p.ops.end(), view.ops.begin(), view.ops.end());
            delete m;
        }
        gen_slices(g, p, nt, true);
    } else {
        nt = 3 + (int) g.below(3);      // task 0 prepares, the others read
        p.cfg[C_TASKS] = nt;
        int mi = machine_by_name(pd.machines[g.below(nm)]);
        p.cfg[C_MACH] = mi;
        Machine* m = g_machines[mi].make(); m->plan = &p;
        m->gen_cfg(g, p);
        m->gen_ops(g, p, 0, std::max(2, nops / 3), heavy);
        for(int t = 1; t < nt; t++) {
            std::vector<Op> keep = p.ops; size_t got = 0; int guard = 0; size_t want = 3 + g.below(12);
            while(got < want && guard++ < 40) {
                p.ops.clear();
                m->gen_ops(g, p, t, 20, 0);
                for(auto& o : p.ops) if(m->is_reader(o) && got < want) { o.fail = 0; keep.push_back(o); got++; }
            }
            p.ops = keep;
        }
        delete m;
        gen_slices(g, p, nt - 1, true);
    }
    return p;
}

// ------------------------------------------------------------------- search
static void account(const Verdict& v, std::map<std::string, u64>& extra) {
    const Outcome& o = v.o;
    S->runs++; S->ops += o.ops; S->faulted += o.faulted; S->steps += o.steps; S->switches += o.switches; S->preempt += o.preempt_in_op;
    S->nalloc += o.nalloc; S->nf_mask += o.nfail_mask; S->nf_quota += o.nfail_quota; S->nf_big += o.nfail_big;
    if(v.skipped) S->skipped++;
    if(mark(S->sched, o.sched)) S->sched_new++;
    for(u64 s : o.states) if(mark(S->state, s)) S->state_new++;
    for(auto& e : o.extra) extra[e.first] += e.second;
    bool moved = false; for(u64 x : o.states) if(x != o.states[0]) { moved = true; break; }
    if(o.ops > 1 && (moved || o.faulted || o.preempt_in_op)) { S->nontrivial++; if(mark(S->behav, v.digest)) S->behav_new++; }
}
static void worker(const PropDef& pd, u64 seed, i64 nruns, int tier, int w, int nw, double deadline, const std::string& dir) {
    core_init();
    std::map<std::string, u64> extra;
    std::string viol, skipmsg;
    for(i64 r = w; r < nruns; r += nw) {
        if(r >= S->min_viol.load()) break;
        if((r / nw) % 16 == 0 && now() > deadline) break;
        S->cur_run[w] = r;
        Plan p = gen_plan(pd, seed, r, tier);
        alarm(120);
        Verdict v = judge(pd, p);
        account(v, extra);
        if(v.skipped && skipmsg.empty()) { std::ostringstream o; o << "run " << r << ": " << v.msg; skipmsg = o.str(); }
        if((r / nw) % 64 == 3 && !v.bad) {
            Verdict v2 = judge(pd, p); S->det_checked++;
            if(v2.digest != v.digest || v2.bad) { S->det_bad++; fprintf(stderr, "note: run %lld is not repeatable\n", (long long) r); }
        }
        if(v.bad) {
            std::ostringstream o; o << r << '\t' << v.cls << '\t' << v.msg << '\n'; viol = o.str();
            i64 m = S->min_viol.load(); while(r < m && !S->min_viol.compare_exchange_weak(m, r)) {}
            break;
        }
        S->done[w]++;
    }
    alarm(0);
    S->cur_run[w] = -1;
    for(u32 i = 0; i < 65536; i++) if(g_edge_map[i]) S->edges[i] = 1;
    std::ofstream f(dir + "/w" + std::to_string(w));
    for(auto& e : extra) f << "fault\t" << e.first << '\t' << e.second << '\n';
    if(!viol.empty()) f << "viol\t" << viol;
    if(!skipmsg.empty()) f << "skip\t" << skipmsg << '\n';
    f << "edges\t" << g_nedges << '\n';
    f.close();
    _exit(0);
}

// Runs one plan in a forked child; a dying child is itself an outcome.
struct Try { bool bad = false; std::string cls, msg; u64 digest = 0; };
static Try try_plan(const PropDef& pd, const Plan& p) {
    int fd[2]; if(pipe(fd)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t c = fork();
    if(c == 0) {
        close(fd[0]); alarm(60);
        if(!freopen("/dev/null", "w", stderr)) _exit(9);
        core_init();
        Verdict v = judge(pd, p);
        std::string s; if(v.bad) { s = v.cls + "\t" + std::to_string(v.digest) + "\t" + v.msg + "\n"; } else s = "ok\t" + std::to_string(v.digest) + "\t\n";
        (void) !write(fd[1], s.data(), s.size());
        _exit(0);
    }
    close(fd[1]);
    std::string s; char b[512]; ssize_t k;
    while((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
    close(fd[0]);
    int st; waitpid(c, &st, 0);
    Try t;
    size_t a = s.find('\t');
    if(!WIFEXITED(st) || WEXITSTATUS(st) != 0 || a == std::string::npos) {
        t.bad = true; char m[96];
        if(WIFSIGNALED(st)) { t.cls = WTERMSIG(st) == SIGALRM ? "hang" : "crash"; snprintf(m, sizeof m, "the simulated process died from signal %d", WTERMSIG(st)); }
        else { t.cls = "crash"; snprintf(m, sizeof m, "the simulated process died with status %d", WEXITSTATUS(st)); if(WEXITSTATUS(st) == 4) t.bad = false; }
        t.msg = m; return t;
    }
    size_t q = s.find('\t', a + 1);
    std::string cls = s.substr(0, a);
    t.digest = strtoull(s.substr(a + 1, q - a - 1).c_str(), nullptr, 10);
    if(cls != "ok") { t.bad = true; t.cls = cls; t.msg = s.substr(q + 1); while(!t.msg.empty() && t.msg.back() == '\n') t.msg.pop_back(); }
    return t;
}

static int g_tries = 0;
static Plan shrink(const PropDef& pd, Plan p, const std::string& cls, double budget) {
    double end = now() + budget;
    auto good = [&](const Plan& q) { if(now() > end) return false; g_tries++; Try t = try_plan(pd, q); return t.bad && t.cls == cls; };
    bool progress = true; int rounds = 0;
    while(progress && now() < end && rounds++ < 6) {
        progress = false;
        // chunks of operations
        for(size_t k = std::max<size_t>(1, p.ops.size() / 2); k >= 1; k = k / 2) {
            for(size_t i = 0; i < p.ops.size() && now() < end;) {
                Plan q = p; size_t e = std::min(p.ops.size(), i + k);
                q.ops.erase(q.ops.begin() + i, q.ops.begin() + e);
                if(!q.ops.empty() && good(q)) { p = q; progress = true; } else i += k;
            }
            if(k == 1) break;
        }
        if(!p.slices.empty()) {
            Plan q = p; q.slices.clear(); if(good(q)) { p = q; progress = true; }
            for(size_t k = std::max<size_t>(1, p.slices.size() / 2); k >= 1 && !p.slices.empty(); k = k / 2) {
                for(size_t i = 0; i < p.slices.size() && now() < end;) {
                    Plan r = p; size_t e = std::min(p.slices.size(), i + k);
                    r.slices.erase(r.slices.begin() + i, r.slices.begin() + e);
                    if(good(r)) { p = r; progress = true; } else i += k;
                }
                if(k == 1) break;
            }
        }
        if(p.cfg[C_QUOTA]) { Plan q = p; q.cfg[C_QUOTA] = 0; if(good(q)) { p = q; progress = true; } }
        if(p.cfg[C_HEAP]) { Plan q = p; q.cfg[C_HEAP] = 0; if(good(q)) { p = q; progress = true; } }
        for(size_t i = 0; i < p.ops.size() && now() < end; i++) {
            if(p.ops[i].fail) {
                Plan q = p; q.ops[i].fail = 0; if(good(q)) { p = q; progress = true; }
                else for(int b = 0; b < 32 && now() < end; b++) if(p.ops[i].fail & (1u << b)) { q = p; q.ops[i].fail &= ~(1u << b); if(good(q)) { p = q; progress = true; } }
            }
            for(int a = 0; a < NARG && now() < end; a++) {
                i64 v = p.ops[i].a[a];
                if(v == 0) continue;
                Plan q = p; q.ops[i].a[a] = 0; if(good(q)) { p = q; progress = true; continue; }
                if(v > 0) for(i64 s = v; s > 1 && now() < end; s /= 2) { i64 nv = p.ops[i].a[a] - s / 2; if(nv < 0) break; q = p; q.ops[i].a[a] = nv; if(nv != p.ops[i].a[a] && good(q)) { p = q; progress = true; } }
            }
        }
    }
    return p;
}
static std::string dump(const Plan& p, const Try& t) {
    std::ostringstream o;
    o << "# replay with: python3 /verif/run.py replay <this file>\n# expect class " << t.cls << " digest " << t.digest << "\n# " << t.msg << "\n" << p.text();
    return o.str();
}

static int cmd_search(int argc, char** argv) {
    // search <prop> <seed> <runs> <tier> <workers> <deadline s> <outdir> [shrink s]
    if(argc < 9) return 2;
    const PropDef* pd = prop_by_id(argv[2]); if(!pd) { fprintf(stderr, "unknown property\n"); return 2; }
    u64 seed = strtoull(argv[3], nullptr, 10); i64 nruns = atoll(argv[4]); int tier = atoi(argv[5]); int nw = atoi(argv[6]);
    double t0 = now(), deadline = t0 + atof(argv[7]); std::string dir = argv[8];
    double sh = argc > 9 ? atof(argv[9]) : 60;
    if(nw < 1) nw = 1;
    if(nw > MAXW) nw = MAXW;
    S = (Shared*) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    S->min_viol = INT64_MAX;
    std::vector<pid_t> pid(nw);
    for(int w = 0; w < nw; w++) {
        S->cur_run[w] = -1;
        fflush(stdout);
        pid[w] = fork();
        if(pid[w] == 0) worker(*pd, seed, nruns, tier, w, nw, deadline, dir);
    }
    std::vector<std::pair<i64, std::string>> cand; bool harness_dead = false;
    for(int w = 0; w < nw; w++) {
        int st; waitpid(pid[w], &st, 0);
        if(!WIFEXITED(st) || WEXITSTATUS(st) != 0) {
            i64 r = S->cur_run[w];
            fprintf(stderr, "worker %d died (%s %d) in run %lld\n", w, WIFEXITED(st) ? "status" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st), (long long) r);
            if(r >= 0) { cand.push_back({r, "crash"}); i64 m = S->min_viol.load(); if(r < m) S->min_viol = r; } else harness_dead = true;
        }
    }
    double tsearch = now() - t0;
    std::map<std::string, u64> extra; std::string nedges = "0", skip;
    for(int w = 0; w < nw; w++) {
        std::ifstream f(dir + "/w" + std::to_string(w)); std::string line;
        while(std::getline(f, line)) {
            size_t a = line.find('\t'); std::string k = line.substr(0, a), rest = line.substr(a + 1);
            if(k == "fault") { size_t b = rest.rfind('\t'); extra[rest.substr(0, b)] += strtoull(rest.c_str() + b + 1, nullptr, 10); }
            else if(k == "viol") cand.push_back({atoll(rest.c_str()), rest});
            else if(k == "edges") nedges = rest;
            else if(k == "skip" && skip.empty()) skip = rest;
        }
    }
    std::sort(cand.begin(), cand.end());
    Try fin; Plan best; bool found = false;
    for(auto& c : cand) {
        Plan p = gen_plan(*pd, seed, c.first, tier);
        Try t = try_plan(*pd, p);
        if(!t.bad) { fprintf(stderr, "candidate run %lld does not reproduce\n", (long long) c.first); continue; }
        Plan q = shrink(*pd, p, t.cls, sh);
        Try a = try_plan(*pd, q), b = try_plan(*pd, q);
        if(!(a.bad && b.bad && a.cls == b.cls && a.digest == b.digest)) { q = p; a = t; b = try_plan(*pd, q); if(!(b.bad && a.cls == b.cls && a.digest == b.digest)) {
            fprintf(stderr, "candidate run %lld is not exactly repeatable\n", (long long) c.first);
            if(!b.bad) continue;        // it violates every time, though not in the same way: the library depends on something outside the simulation
            a.msg += " [the violation recurs, its details vary]";
        } }
        found = true; fin = a; best = q; break;
    }
    u64 edges = 0; for(u32 i = 0; i < 65536; i++) edges += S->edges[i];
    u64 nb = 0, sb = 0; for(u32 i = 0; i < BITS / 8; i++) { nb += __builtin_popcount(S->sched[i]); sb += __builtin_popcount(S->state[i]); }
    std::ofstream f(dir + "/result.txt");
    f << "runs " << S->runs << "\nops " << S->ops << "\nfaulted_ops " << S->faulted << "\nsteps " << S->steps << "\nswitches " << S->switches
      << "\npreempt_in_op " << S->preempt << "\nallocations " << S->nalloc << "\nfail_planned " << S->nf_mask << "\nfail_quota " << S->nf_quota << "\nfail_oversize " << S->nf_big
      << "\nskipped " << S->skipped << "\nnontrivial " << S->nontrivial << "\ndet_checked " << S->det_checked << "\ndet_bad " << S->det_bad
      << "\ndistinct_nontrivial " << S->behav_new << "\ndistinct_schedules " << nb << "\ndistinct_states " << sb << "\nedges_covered " << edges << "\nedges_total " << nedges << "\nsearch_s " << tsearch << "\nshrink_tries " << g_tries << "\n";
    for(auto& e : extra) f << "fault " << e.second << ' ' << e.first << '\n';
    if(!skip.empty()) f << "skipmsg " << skip << '\n';
    f << "violated " << (found ? 1 : 0) << '\n';
    if(found) {
        f << "class " << fin.cls << "\nmessage " << fin.msg << '\n';
        std::ofstream r(dir + "/replay.simplan"); r << dump(best, fin);
    }
    f.close();
    if(found) { printf("violated %s: %s\n", fin.cls.c_str(), fin.msg.c_str()); return 1; }
    if(!cand.empty() || harness_dead) return 2;
    return 0;
}
static int cmd_replay(int argc, char** argv) {
    if(argc < 3) return 2;
    std::ifstream f(argv[2]); std::stringstream ss; ss << f.rdbuf();
    Plan p; if(!p.parse(ss.str())) { fprintf(stderr, "cannot read %s\n", argv[2]); return 2; }
    const PropDef* pd = prop_by_id(p.prop.c_str()); if(!pd) return 2;
    Try t = try_plan(*pd, p);
    printf("property %s seed %llu run %lld: %zu operation(s), %zu scheduling decision(s)\n", pd->id, (unsigned long long) p.seed, (long long) p.run, p.ops.size(), p.slices.size());
    fflush(stdout);
    pid_t c = fork();
    if(c == 0) { core_init(); g_verbose = true; judge(*pd, p); _exit(0); }
    int st; waitpid(c, &st, 0);
    if(t.bad) {
        printf("VIOLATED class %s digest %llu: %s\n", t.cls.c_str(), (unsigned long long) t.digest, t.msg.c_str());
        std::string want = "# expect class " + t.cls + " digest " + std::to_string(t.digest) + "\n";
        if(ss.str().find("# expect class") != std::string::npos) puts(ss.str().find(want) != std::string::npos ? "exactly as recorded" : "NOT as recorded (class and digest in the file differ)");
        return 1;
    }
    printf("held, digest %llu\n", (unsigned long long) t.digest); return 0;
}
// digests <prop> <seed> <runs> <tier>: what the first runs come to, for comparison between processes
static int cmd_digests(int argc, char** argv) {
    if(argc < 6) return 2;
    const PropDef* pd = prop_by_id(argv[2]); if(!pd) return 2;
    u64 seed = strtoull(argv[3], nullptr, 10); i64 n = atoll(argv[4]); int tier = atoi(argv[5]);
    core_init();
    for(i64 r = 0; r < n; r++) { Plan p = gen_plan(*pd, seed, r, tier); Verdict v = judge(*pd, p); printf("%lld %llu %s\n", (long long) r, (unsigned long long) v.digest, v.cls.c_str()); }
    return 0;
}
int main(int argc, char** argv) {
    g_edge_map = (u8*) calloc(1, 65536);
    if(argc >= 2 && !strcmp(argv[1], "search")) return cmd_search(argc, argv);
    if(argc >= 2 && !strcmp(argv[1], "replay")) return cmd_replay(argc, argv);
    if(argc >= 5 && !strcmp(argv[1], "plan")) { const PropDef* pd = prop_by_id(argv[2]); Plan p = gen_plan(*pd, strtoull(argv[3], nullptr, 10), atoll(argv[4]), argc > 5 ? atoi(argv[5]) : 0); fputs(p.text().c_str(), stdout); return 0; }
    if(argc >= 2 && !strcmp(argv[1], "props")) { for(int i = 0; i < g_nprops; i++) printf("%s %lld %lld\n", g_props[i].id, (long long) g_props[i].runs[0], (long long) g_props[i].runs[1]); return 0; }
    if(argc >= 2 && !strcmp(argv[1], "digests")) return cmd_digests(argc, argv);
    if(argc >= 2 && !strcmp(argv[1], "extra")) return extra_main(argc, argv);
    fprintf(stderr, "usage: sim search|replay|plan|props\n"); return 2;
}
