// Seeded search over simulated runs, one forked process per run; gating,
// minimisation and replay of violations.
#include "rt.h"

#include <algorithm>
#include <cinttypes>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fnmatch.h>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace sim {

static double mono()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static void* shm(size_t n)
{
    void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE,
                   MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) {
        perror("mmap");
        exit(3);
    }
    return p;
}
static u64 mix64(u64 a, u64 b)
{
    Rng r(a * 0x9e3779b97f4a7c15ull + b);
    r.next();
    return r.next();
}

static Result* g_res; // of this worker

static void run_child(const RunSpec& spec)
{
    g_res->status = 0;
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) {
        perror("fork");
        exit(3);
    }
    if (!pid) {
        itimerval tv{};
        tv.it_value.tv_sec = 60;
        setitimer(ITIMER_VIRTUAL, &tv, nullptr);
        execute(spec, g_res);
        _exit(3);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR)
        ;
    if (g_res->status == 0) {
        // died without a report
        g_res->status = 2;
        snprintf(g_res->cls, sizeof g_res->cls, "crash");
        snprintf(g_res->msg, sizeof g_res->msg,
                 "the process died (wait status %d)", st);
        g_res->hash = 0;
    }
}

static void build_program(Scenario* sc, u64 seed, Program& p)
{
    Rng r(seed);
    p                = Program{};
    p.cfg[CFG_ALLOC] = r.below(2);
    static const u8 fills[] = {0xcd, 0x00, 0xff, 0x01};
    p.cfg[CFG_FILL]         = fills[r.below(4)];
    p.cfg[CFG_RACE]         = 1;
    sc->gen(r, p);
    u16 id = 1;
    for (int t = 0; t <= p.nth; ++t)
        for (auto& o : p.th[t])
            o.id = id++;
}

struct Agg
{
    u64 runs, steps, switches, preempts, stalls, gcs, fired_alloc, fired_throw;
    u64 ops, allocs, mt_runs, decs, faulted_runs, known, errors, capped;
    u64 nontrivial, next;
    u32 ndist_sched, ndist_hash;
    u32 nviol;
    u32 stop;
    struct
    {
        char name[40];
        u64 n;
    } probes[256];
    struct
    {
        u64 runs;
    } scn[128];
    u32 sample_n;
    char samples[4][1600];
};
static const u32 HT = 1u << 23;
static Agg* g_agg;
static u64 *g_ht1, *g_ht2;

static bool ht_add(u64* t, u64 h, u32* count)
{
    if (!h)
        h = 1;
    if (__atomic_load_n(count, __ATOMIC_RELAXED) > HT / 2)
        return false;
    for (u32 i = (u32) (h >> 17);; ++i) {
        u64* s = &t[i & (HT - 1)];
        u64 e  = 0;
        if (__atomic_load_n(s, __ATOMIC_RELAXED) == h)
            return false;
        if (__atomic_compare_exchange_n(s, &e, h, false, __ATOMIC_SEQ_CST,
                                        __ATOMIC_SEQ_CST)) {
            __atomic_fetch_add(count, 1, __ATOMIC_SEQ_CST);
            return true;
        }
        if (e == h)
            return false;
    }
}
static void add(u64& a, u64 v) { __atomic_fetch_add(&a, v, __ATOMIC_RELAXED); }

static std::string kind_name(Scenario* sc, u32 k)
{
    return k == 0xffff ? "-" : sc->op_name(k);
}

static std::string program_text(const RunSpec& s)
{
    std::ostringstream o;
    o << "cfg";
    for (auto c : s.prog.cfg)
        o << ' ' << c;
    o << "\nthreads " << s.prog.nth << "\n";
    for (int t = 0; t <= s.prog.nth; ++t)
        for (auto& op : s.prog.th[t])
            o << "op " << t << ' ' << op.id << ' ' << s.sc->op_name(op.kind)
              << ' ' << op.a[0] << ' ' << op.a[1] << ' ' << op.a[2] << ' '
              << op.a[3] << "\n";
    for (auto& d : s.decs)
        o << "decision " << dec_names[d.kind] << ' ' << (int) d.tid << ' '
          << d.op << ' ' << d.k << ' ' << d.val << "\n";
    return o.str();
}

struct Known
{
    std::string scn, op, cls, match;
};
static std::vector<Known> g_known;
static bool prefix_match(const std::string& pat, const std::string& s)
{
    return fnmatch(pat.c_str(), s.c_str(), 0) == 0;
}
static int known_index(Scenario* sc, const Result* r)
{
    for (size_t i = 0; i < g_known.size(); ++i) {
        auto& k = g_known[i];
        if (prefix_match(k.scn, sc->name) &&
            prefix_match(k.op, kind_name(sc, r->vkind)) &&
            prefix_match(k.cls, r->cls) &&
            (k.match.empty() || strstr(r->msg, k.match.c_str())))
            return i;
    }
    return -1;
}

// ------------------------------------------------------------ minimising
struct Minimiser
{
    RunSpec best;
    std::string cls;
    double deadline;
    int tries = 0;
    u32 vkind = 0;

    bool test(const RunSpec& s)
    {
        if (mono() > deadline || tries > 6000)
            return false;
        ++tries;
        run_child(s);
        return g_res->status == 2 && cls == g_res->cls;
    }
    bool adopt(RunSpec& s)
    {
        if (!test(s))
            return false;
        best = s;
        return true;
    }
    struct Ref
    {
        int t;
        size_t i;
    };
    bool ops_pass()
    {
        bool any = false;
        for (int t = best.prog.nth; t >= 1; --t)
            if (!best.prog.th[t].empty()) {
                RunSpec s = best;
                s.prog.th[t].clear();
                any |= adopt(s);
            }
        for (int t = 0; t <= best.prog.nth; ++t) {
            size_t n = best.prog.th[t].size();
            for (size_t c = n ? n / 2 : 0; c >= 1; c /= 2) {
                for (size_t i = 0; i < best.prog.th[t].size();) {
                    RunSpec s = best;
                    auto& v   = s.prog.th[t];
                    v.erase(v.begin() + i,
                            v.begin() + std::min(i + c, v.size()));
                    if (adopt(s))
                        any = true;
                    else
                        i += c;
                }
            }
            if (n == 1 && best.prog.th[t].size() == 1) {
                RunSpec s = best;
                s.prog.th[t].clear();
                any |= adopt(s);
            }
        }
        return any;
    }
    bool decs_pass()
    {
        bool any = false;
        size_t n = best.decs.size();
        for (size_t c = n; c >= 1; c /= 2)
            for (size_t i = 0; i < best.decs.size();) {
                RunSpec s = best;
                auto& v   = s.decs;
                v.erase(v.begin() + i, v.begin() + std::min(i + c, v.size()));
                if (adopt(s))
                    any = true;
                else
                    i += c;
            }
        for (size_t i = 0; i < best.decs.size(); ++i)
            if (best.decs[i].kind == D_SW && best.decs[i].val >> 8) {
                RunSpec s = best;
                s.decs[i].val &= 0xff;
                any |= adopt(s);
            }
        return any;
    }
    bool args_pass()
    {
        bool any = false;
        for (int t = 0; t <= best.prog.nth; ++t)
            for (size_t i = 0; i < best.prog.th[t].size(); ++i)
                for (int k = 0; k < 4; ++k) {
                    u32 v = best.prog.th[t][i].a[k];
                    if (!v)
                        continue;
                    u32 cand[] = {0, 1, v & 7, v & 63, v / 2, v - 1};
                    for (u32 c : cand) {
                        if (c >= best.prog.th[t][i].a[k])
                            continue;
                        RunSpec s = best;
                        s.prog.th[t][i].a[k] = c;
                        if (adopt(s)) {
                            any = true;
                            break;
                        }
                    }
                }
        for (int c = 0; c < 12; ++c)
            if (best.prog.cfg[c]) {
                RunSpec s = best;
                s.prog.cfg[c] = 0;
                any |= adopt(s);
            }
        return any;
    }
    void go()
    {
        for (int r = 0; r < 8; ++r) {
            bool any = decs_pass();
            any |= ops_pass();
            any |= decs_pass();
            any |= args_pass();
            if (!any || mono() > deadline)
                break;
        }
    }
};

static void write_replay(const std::string& path, const std::string& prop,
                         const std::string& exe, const RunSpec& s,
                         const Result* r, u64 seed)
{
    std::ofstream o(path);
    o << "immer-sim replay v1\n";
    o << "property " << prop << "\n";
    o << "exe " << exe << "\n";
    o << "scenario " << s.sc->name << "\n";
    o << "seed " << seed << "\n";
    o << "class " << r->cls << "\n";
    o << "thread " << r->vtid << "\n";
    o << "at " << kind_name(s.sc, r->vkind) << "\n";
    o << "hash " << r->hash << "\n";
    std::string m = r->msg;
    std::replace(m.begin(), m.end(), '\n', ' ');
    o << "message " << m << "\n";
    o << program_text(s);
    o << "end\n";
}

static bool read_replay(const std::string& path, RunSpec& s, std::string& cls,
                        u64& hash)
{
    std::ifstream in(path);
    std::string line;
    s      = RunSpec{};
    s.sc   = nullptr;
    s.gen  = false;
    s.seed = 0;
    if (!std::getline(in, line) || line != "immer-sim replay v1")
        return false;
    std::map<std::string, int> kinds;
    while (std::getline(in, line)) {
        std::istringstream is(line);
        std::string w;
        is >> w;
        if (w == "scenario") {
            std::string n;
            is >> n;
            for (auto* sc : scenarios())
                if (n == sc->name)
                    s.sc = sc;
            if (!s.sc) {
                fprintf(stderr, "no scenario %s here\n", n.c_str());
                return false;
            }
            for (int k = 0; k < 1000; ++k) {
                auto* nm = s.sc->op_name(k);
                if (!nm)
                    break;
                kinds[nm] = k;
            }
        } else if (w == "class")
            is >> cls;
        else if (w == "hash")
            is >> hash;
        else if (w == "cfg")
            for (auto& c : s.prog.cfg)
                is >> c;
        else if (w == "threads")
            is >> s.prog.nth;
        else if (w == "op") {
            int t;
            Op op;
            std::string k;
            is >> t >> op.id >> k >> op.a[0] >> op.a[1] >> op.a[2] >> op.a[3];
            if (!kinds.count(k) || t < 0 || t >= MAXT)
                return false;
            op.kind = kinds[k];
            s.prog.th[t].push_back(op);
        } else if (w == "decision") {
            std::string k;
            int t, o;
            Dec d{};
            is >> k >> t >> o >> d.k >> d.val;
            d.tid  = t;
            d.op   = o;
            d.kind = D_N;
            for (int i = 0; i < D_N; ++i)
                if (k == dec_names[i])
                    d.kind = i;
            s.decs.push_back(d);
        } else if (w == "end")
            return s.sc != nullptr;
    }
    return false;
}

// ---------------------------------------------------------------- search
struct Options
{
    std::string prop = "C00", out = ".", exe, known;
    std::vector<Scenario*> scns;
    u64 seed = 1, runs = 1000, first = 0;
    int jobs = 8;
    double max_wall = 600;
    double min_budget = 25;
    u32 max_viol = 3;
};

static void collect(const RunSpec& s, size_t scidx)
{
    Result* r = g_res;
    Agg& A    = *g_agg;
    add(A.runs, 1);
    add(A.steps, r->steps);
    add(A.switches, r->switches);
    add(A.preempts, r->preempts);
    add(A.stalls, r->stalls);
    add(A.gcs, r->gcs);
    add(A.fired_alloc, r->fired_alloc);
    add(A.fired_throw, r->fired_throw);
    add(A.ops, r->ops);
    add(A.allocs, r->allocs);
    add(A.decs, r->ndec);
    if (r->ndec >= MAXDEC)
        add(A.capped, 1);
    if (r->fired_alloc + r->fired_throw)
        add(A.faulted_runs, 1);
    add(A.scn[scidx].runs, 1);
    bool mt = s.prog.nth > 1;
    if (mt) {
        add(A.mt_runs, 1);
        ht_add(g_ht1, mix64(r->sched_hash, scidx), &A.ndist_sched);
    }
    bool fresh = ht_add(g_ht2, mix64(r->hash, scidx), &A.ndist_hash);
    // non-trivial: did something to the containers, and (with several threads)
    // actually interleaved them inside operations or (with one) ran >= 5 ops
    if (fresh && r->ops >= 3 && r->allocs > 0 && (!mt || r->preempts > 0))
        add(A.nontrivial, 1);
    for (u32 i = 0; i < r->nprobe; ++i)
        for (auto& p : A.probes) {
            if (!p.name[0])
                memcpy(p.name, r->probes[i].name, sizeof p.name);
            if (!strncmp(p.name, r->probes[i].name, sizeof p.name)) {
                add(p.n, r->probes[i].n);
                break;
            }
        }
}

static void handle_violation(const Options& o, const RunSpec& gen, u64 idx)
{
    Agg& A = *g_agg;
    Result* saved = (Result*) malloc(sizeof(Result));
    memcpy(saved, g_res, sizeof(Result));
    int ki = known_index(gen.sc, saved);
    if (ki >= 0) {
        add(A.known, 1);
        printf("KNOWN %d seed=%" PRIu64 "\n", ki, gen.seed);
        fflush(stdout);
        free(saved);
        return;
    }
    u32 slot = __atomic_fetch_add(&A.nviol, 1, __ATOMIC_SEQ_CST);
    if (slot >= o.max_viol) {
        __atomic_store_n(&A.stop, 1, __ATOMIC_SEQ_CST);
        free(saved);
        return;
    }
    // gate 1: the same seed gives the same run
    run_child(gen);
    bool same = g_res->status == 2 && !strcmp(g_res->cls, saved->cls) &&
                g_res->hash == saved->hash;
    // gate 2: the recorded decisions give the same run
    RunSpec rep = gen;
    rep.gen     = false;
    rep.decs.assign(saved->dec, saved->dec + saved->ndec);
    run_child(rep);
    bool same2 = g_res->status == 2 && !strcmp(g_res->cls, saved->cls) &&
                 (g_res->hash == saved->hash || !strcmp(saved->cls, "crash"));
    if (!same || !same2) {
        printf("NONDETERMINISTIC scenario=%s seed=%" PRIu64
               " class=%s same-seed=%d replay=%d msg=%s\n",
               gen.sc->name, gen.seed, saved->cls, same, same2, saved->msg);
        fflush(stdout);
        add(A.errors, 1);
        free(saved);
        return;
    }
    Minimiser m;
    m.best     = rep;
    m.cls      = saved->cls;
    m.vkind    = saved->vkind;
    m.deadline = mono() + o.min_budget;
    m.go();
    run_child(m.best);
    if (g_res->status != 2 || m.cls != g_res->cls) {
        printf("NONDETERMINISTIC minimised run did not fail again\n");
        fflush(stdout);
        add(A.errors, 1);
        free(saved);
        return;
    }
    // a minimised failure may be one that is already known
    if (known_index(m.best.sc, g_res) >= 0) {
        add(A.known, 1);
        __atomic_fetch_sub(&A.nviol, 1, __ATOMIC_SEQ_CST);
        free(saved);
        return;
    }
    char path[600];
    snprintf(path, sizeof path, "%s/%s-%u-%d.replay", o.out.c_str(),
             o.prop.c_str(), slot, (int) getpid());
    write_replay(path, o.prop, o.exe, m.best, g_res, gen.seed);
    size_t nops = 0;
    for (auto& t : m.best.prog.th)
        nops += t.size();
    printf("FOUND %s scenario=%s seed=%" PRIu64
           " class=%s at=%s ops=%zu decisions=%zu msg=%s\n",
           path, gen.sc->name, gen.seed, g_res->cls,
           kind_name(gen.sc, g_res->vkind).c_str(), nops, m.best.decs.size(),
           g_res->msg);
    fflush(stdout);
    free(saved);
}

static void worker(const Options& o, int w, double t0)
{
    g_res = (Result*) shm(sizeof(Result));
    RunSpec s;
    (void) w;
    for (;;) {
        u64 i = o.first + __atomic_fetch_add(&g_agg->next, 1, __ATOMIC_SEQ_CST);
        if (i >= o.first + o.runs)
            break;
        if (__atomic_load_n(&g_agg->stop, __ATOMIC_SEQ_CST))
            break;
        if (mono() - t0 > o.max_wall)
            break;
        size_t si = i % o.scns.size();
        s         = RunSpec{};
        s.sc      = o.scns[si];
        s.gen     = true;
        s.seed    = mix64(o.seed, i);
        build_program(s.sc, s.seed, s.prog);
        run_child(s);
        if (g_res->status == 3 || (g_res->status != 1 && g_res->status != 2)) {
            add(g_agg->errors, 1);
            printf("SIMERROR scenario=%s seed=%" PRIu64 "\n", s.sc->name,
                   s.seed);
            fflush(stdout);
            continue;
        }
        collect(s, si);
        u32 sn;
        if (g_res->status == 1 && g_res->ops > 2 &&
            (g_res->ndec || s.prog.nth == 1) &&
            (sn = __atomic_fetch_add(&g_agg->sample_n, 1, __ATOMIC_SEQ_CST)) <
                4) {
            RunSpec t = s;
            t.decs.assign(g_res->dec, g_res->dec + std::min(g_res->ndec, 12u));
            std::ostringstream os;
            os << "scenario " << s.sc->name << " seed " << s.seed << " steps "
               << g_res->steps << " decisions " << g_res->ndec << "\n"
               << program_text(t);
            std::string str = os.str();
            snprintf(g_agg->samples[sn], sizeof g_agg->samples[sn], "%s",
                     str.c_str());
        }
        if (g_res->status == 2)
            handle_violation(o, s, i);
    }
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\')
            r += '\\', r += c;
        else if (c == '\n')
            r += "\\n";
        else if ((unsigned char) c < 32)
            r += ' ';
        else
            r += c;
    }
    return r;
}

static int cmd_run(Options& o)
{
    g_agg = (Agg*) shm(sizeof(Agg));
    g_ht1 = (u64*) shm(sizeof(u64) * HT);
    g_ht2 = (u64*) shm(sizeof(u64) * HT);
    if (!o.known.empty()) {
        std::ifstream in(o.known);
        std::string l;
        while (std::getline(in, l)) {
            if (l.empty() || l[0] == '#')
                continue;
            std::vector<std::string> p;
            std::istringstream is(l);
            std::string x;
            while (std::getline(is, x, '|'))
                p.push_back(x);
            while (p.size() < 4)
                p.push_back("");
            g_known.push_back(Known{p[0], p[1], p[2], p[3]});
        }
    }
    double t0 = mono();
    std::vector<pid_t> ps;
    for (int w = 0; w < o.jobs; ++w) {
        fflush(stdout);
        pid_t p = fork();
        if (!p) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            worker(o, w, t0);
            fflush(stdout);
            _exit(0);
        }
        ps.push_back(p);
    }
    int bad = 0;
    for (auto p : ps) {
        int st;
        waitpid(p, &st, 0);
        if (st)
            bad = 1;
    }
    double wall = mono() - t0;
    Agg& A      = *g_agg;
    std::ofstream js(o.out + "/summary.json");
    js << "{\n";
    auto kv = [&](const char* k, u64 v) {
        js << "\"" << k << "\": " << v << ",\n";
    };
    kv("runs", A.runs);
    kv("steps", A.steps);
    kv("ops", A.ops);
    kv("allocs", A.allocs);
    kv("mt_runs", A.mt_runs);
    kv("switches", A.switches);
    kv("preemptions", A.preempts);
    kv("stalls", A.stalls);
    kv("gc_collections", A.gcs);
    kv("alloc_failures", A.fired_alloc);
    kv("throws", A.fired_throw);
    kv("faulted_runs", A.faulted_runs);
    kv("decisions", A.decs);
    kv("decision_capped_runs", A.capped);
    kv("distinct_interleavings", A.ndist_sched);
    kv("distinct_executions", A.ndist_hash);
    kv("nontrivial", A.nontrivial);
    kv("violations", A.nviol);
    kv("known", A.known);
    kv("errors", A.errors + bad);
    js << "\"wall\": " << wall << ",\n\"scenarios\": {";
    for (size_t i = 0; i < o.scns.size(); ++i)
        js << (i ? ", " : "") << "\"" << o.scns[i]->name
           << "\": " << A.scn[i].runs;
    js << "},\n\"probes\": {";
    bool first = true;
    for (auto& p : A.probes)
        if (p.name[0]) {
            js << (first ? "" : ", ") << "\"" << jesc(p.name) << "\": " << p.n;
            first = false;
        }
    js << "},\n\"samples\": [";
    for (u32 i = 0; i < std::min(A.sample_n, 4u); ++i)
        js << (i ? ", " : "") << "\"" << jesc(A.samples[i]) << "\"";
    js << "]\n}\n";
    js.close();
    printf("DONE runs=%" PRIu64 " steps=%" PRIu64 " wall=%.1f (%.0f/s) viol=%u "
           "known=%" PRIu64 " errors=%" PRIu64 "\n",
           A.runs, A.steps, wall, A.runs / wall, A.nviol, A.known, A.errors);
    if (A.nviol)
        return 1;
    if (A.errors || bad)
        return 2;
    return 0;
}

static int cmd_hashes(Options& o)
{
    // prints seed, hash and status of every run: used to check determinism
    g_res = (Result*) shm(sizeof(Result));
    for (u64 i = o.first; i < o.first + o.runs; ++i) {
        RunSpec s;
        s.sc   = o.scns[i % o.scns.size()];
        s.gen  = true;
        s.seed = mix64(o.seed, i);
        build_program(s.sc, s.seed, s.prog);
        run_child(s);
        u64 h = g_res->hash;
        int st = g_res->status;
        // and the decisions it recorded must give the same execution
        if (st == 1 && g_res->ndec < MAXDEC) {
            RunSpec r = s;
            r.gen     = false;
            r.decs.assign(g_res->dec, g_res->dec + g_res->ndec);
            run_child(r);
            if (g_res->hash != h || g_res->status != st) {
                printf("REPLAY-DIFFERS %s seed %" PRIu64 " %s %s\n", s.sc->name, s.seed, g_res->cls, g_res->msg);
            }
        }
        printf("%s %" PRIu64 " %d %016" PRIx64 "\n", s.sc->name, s.seed, st, h);
    }
    return 0;
}

static int cmd_one(Options& o)
{
    g_res = (Result*) shm(sizeof(Result));
    RunSpec s;
    s.sc      = o.scns[0];
    s.gen     = true;
    s.seed    = o.seed;
    s.verbose = true;
    build_program(s.sc, s.seed, s.prog);
    run_child(s);
    s.decs.assign(g_res->dec, g_res->dec + g_res->ndec);
    printf("%s", program_text(s).c_str());
    printf("status %d %s %s steps %" PRIu64 " hash %" PRIx64 "\n", g_res->status, g_res->cls,
           g_res->msg, g_res->steps, g_res->hash);
    return g_res->status == 1 ? 0 : 1;
}

static int cmd_replay(const std::string& path, bool verbose)
{
    g_res = (Result*) shm(sizeof(Result));
    RunSpec s;
    std::string cls;
    u64 hash = 0;
    if (!read_replay(path, s, cls, hash)) {
        fprintf(stderr, "cannot read %s\n", path.c_str());
        return 3;
    }
    s.verbose = verbose;
    run_child(s);
    if (g_res->status == 2 && cls == g_res->cls) {
        bool same = hash == g_res->hash;
        printf("REPRODUCED class=%s at=%s hash-%s msg=%s\n", g_res->cls,
               kind_name(s.sc, g_res->vkind).c_str(),
               same ? "identical" : "differs", g_res->msg);
        for (u32 i = 0; i < g_res->npc; ++i)
            printf("PC %p\n", g_res->pcs[i]);
        return same ? 1 : 4;
    }
    printf("NOT-REPRODUCED status=%d class=%s msg=%s\n", g_res->status,
           g_res->status == 2 ? g_res->cls : "-",
           g_res->status == 2 ? g_res->msg : "");
    return g_res->status == 1 ? 0 : 5;
}

int sim_main(int argc, char** argv, void* d0, void* d1)
{
    // every symbol is bound before the first run: the dynamic linker would
    // leave its frames on the stack of whichever thread comes first
    if (!getenv("LD_BIND_NOW")) {
        setenv("LD_BIND_NOW", "1", 1);
        execv("/proc/self/exe", argv);
    }
    init_regions(d0, d1);
    std::sort(scenarios().begin(), scenarios().end(),
              [](Scenario* a, Scenario* b) {
                  return strcmp(a->name, b->name) < 0;
              });
    Options o;
    o.exe = argv[0];
    std::string cmd = argc > 1 ? argv[1] : "";
    std::vector<std::string> pos;
    std::string scn;
    bool verbose = false;
    for (int i = 2; i < argc; ++i) {
        std::string a = argv[i];
        auto val      = [&]() { return std::string(argv[++i]); };
        if (a == "--prop")
            o.prop = val();
        else if (a == "--seed")
            o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--runs")
            o.runs = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--first")
            o.first = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--jobs")
            o.jobs = atoi(val().c_str());
        else if (a == "--out")
            o.out = val();
        else if (a == "--exe")
            o.exe = val();
        else if (a == "--known")
            o.known = val();
        else if (a == "--scn")
            scn = val();
        else if (a == "--max-wall")
            o.max_wall = atof(val().c_str());
        else if (a == "--min-budget")
            o.min_budget = atof(val().c_str());
        else if (a == "--max-viol")
            o.max_viol = atoi(val().c_str());
        else if (a == "-v")
            verbose = true;
        else
            pos.push_back(a);
    }
    for (auto* s : scenarios()) {
        if (scn.empty()) {
            o.scns.push_back(s);
            continue;
        }
        std::istringstream is(scn);
        std::string x;
        while (std::getline(is, x, ','))
            if (prefix_match(x, s->name)) {
                o.scns.push_back(s);
                break;
            }
    }
    if (cmd == "list") {
        for (auto* s : scenarios())
            printf("%s\n", s->name);
        return 0;
    }
    if (cmd == "replay" && pos.size() == 1)
        return cmd_replay(pos[0], verbose);
    if (o.scns.empty()) {
        fprintf(stderr, "no scenario selected\n");
        return 3;
    }
    if (cmd == "run")
        return cmd_run(o);
    if (cmd == "hashes")
        return cmd_hashes(o);
    if (cmd == "one")
        return cmd_one(o);
    fprintf(stderr, "usage: %s run|replay|one|hashes|list ...\n", argv[0]);
    return 3;
}

} // namespace sim
