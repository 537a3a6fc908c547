#include "engine.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <dirent.h>
#include <fcntl.h>
#include <time.h>
#include <locale.h>

std::string g_last_error;

std::string fmt(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
    std::string r(p ? p : "", n > 0 ? (size_t)n : 0); free(p);
    return r;
}
std::string esc(const std::string &s, size_t max)
{
    std::string r = "\"";
    for (size_t i = 0; i < s.size(); i++) {
        if (i >= max) { r += fmt("\"..(%zu bytes)", s.size()); return r; }
        unsigned char ch = (unsigned char)s[i];
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch < 32 || ch >= 127) r += fmt("\\x%02x", ch);
        else r += (char)ch;
    }
    return r + "\"";
}
void fail(const char *tag, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
    CaseFail cf; cf.tag = tag; cf.msg.assign(p ? p : "", n > 0 ? (size_t)n : 0); free(p);
    throw cf;
}
void Ctx::t(const char *f, ...)
{
    if (!tracing) return;
    va_list ap; va_start(ap, f);
    char *p = nullptr; int n = vasprintf(&p, f, ap); va_end(ap);
    if (trace.size() < 200000) { trace.append(p ? p : "", n > 0 ? (size_t)n : 0); trace += '\n'; }
    if (trace_fd >= 0 && p) { dprintf(trace_fd, "%s\n", p); }
    if (getenv("PBT_TRACE")) { fprintf(stderr, "| %s\n", p); }
    free(p);
}
uint64_t Src::next64()
{
    uint64_t a = s[0], b = s[1], r = a + b;
    b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27);
    return r;
}
uint32_t Src::draw(uint32_t n)
{
    uint32_t v;
    if (n == 0) n = 1;
    if (replay) { v = pos < rep_n ? rep[pos] : 0; if (v >= n) v = n - 1; }
    else v = (uint32_t)(((next64() >> 32) * (uint64_t)n) >> 32);
    if (rec && pos < rec_cap) { rec[pos] = v; *rec_n = (uint32_t)pos + 1; }
    pos++;
    if (pos > 4000000) throw CaseDiscard();
    return v;
}

void rm_rf(const std::string &dir)
{
    if (dir.size() < 8 || dir.find("ferretpbt") == std::string::npos) return;
    DIR *d = opendir(dir.c_str());
    if (!d) return;
    while (struct dirent *e = readdir(d)) {
        if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
        std::string p = dir + "/" + e->d_name;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_rf(p); else unlink(p.c_str());
    }
    closedir(d);
    rmdir(dir.c_str());
}

// ------------------------------------------------------------------------------------------
static const size_t REC_CAP = 1u << 20;
struct Slot {                      // shared between the master and one child
    volatile uint32_t rec_n;
    volatile uint64_t cur_case, evals, nontriv, discards;
    volatile int status;           // 0 running, 1 failed (msg), 2 finished
    char tag[64];
    char msg[4096];
    uint32_t rec[REC_CAP];
};
static Slot *new_slot()
{
    void *p = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    return (Slot *)p;
}

static const Prop *g_prop;
static uint64_t g_seed;
static bool g_thorough;
static std::string g_root;         // scratch root
static std::string g_outdir;

static uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31);
}
static Slot *g_my_slot;
static void on_limit(int sig)
{
    const char *m = sig == SIGPROF ? "case exceeded its CPU-time limit (endless loop?)" : "case did not finish (deadlock?)";
    if (g_my_slot) { strcpy(g_my_slot->tag, "hang"); strcpy(g_my_slot->msg, m); g_my_slot->status = 1; }
    _exit(9);
}
static void arm(unsigned cpu, unsigned wall)
{
    struct itimerval it; memset(&it, 0, sizeof it);
    it.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &it, nullptr);
    it.it_value.tv_sec = wall; setitimer(ITIMER_REAL, &it, nullptr);
}

// Runs one case in this process.  Returns 0 ok, 1 failed, 2 discarded.
static int run_case(Ctx &c, Slot *slot)
{
    int res = 0;
    CaseFail cf;
    if (g_prop->needs_scratch) {
        c.scratch = g_root + fmt("/w%d", (int)getpid());
        rm_rf(c.scratch);
        mkdir(c.scratch.c_str(), 0755);
    }
    arm(g_prop->cpu_limit_s, g_prop->cpu_limit_s * 2 + 20);
    int rc = frt_try([&] {
        try { g_prop->run(c); }
        catch (CaseFail &f) { res = 1; cf = f; }
        catch (CaseDiscard &) { res = 2; }
    });
    arm(0, 0);
    if (rc) { res = 1; cf.tag = "error"; cf.msg = fmt("unexpected error %d: %s", rc, g_last_error.c_str()); }
    if (g_prop->needs_scratch) rm_rf(c.scratch);
    if (res == 1) {
        snprintf(slot->tag, sizeof slot->tag, "%s", cf.tag.c_str());
        snprintf(slot->msg, sizeof slot->msg, "%s", cf.msg.c_str());
        slot->status = 1;
    }
    return res;
}
static void seed_src(Src &s, uint64_t case_no)
{
    uint64_t h = mix(g_seed * 1000003 + 17);
    for (const char *p = g_prop->id; *p; p++) h = mix(h ^ (unsigned char)*p);
    s.s[0] = mix(h ^ mix(case_no)); s.s[1] = mix(s.s[0] + case_no + 1);
    if (!s.s[0] && !s.s[1]) s.s[0] = 1;
    s.replay = false;
}
static uint64_t fnv(const uint32_t *p, size_t n)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
}

static void redirect_stderr(const std::string &path)
{
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0) { dup2(fd, 2); close(fd); }
}

static void write_labels(FILE *f, const std::map<std::string, uint64_t> &m)
{
    for (auto &kv : m) fprintf(f, "%s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
}

// A worker: cases w, w+W, w+2W ...
static void worker(int w, int W, uint64_t from, uint64_t n, Slot *slot, uint64_t only_last)
{
    g_my_slot = slot;
    signal(SIGPROF, on_limit); signal(SIGALRM, on_limit);
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> distinct;
    (void)only_last;
    for (uint64_t i = from + w; i < n; i += W) {
        Ctx c; c.case_no = i; c.thorough = g_thorough;
        slot->rec_n = 0; slot->cur_case = i;
        seed_src(c.src, i);
        c.src.rec = slot->rec; c.src.rec_n = &slot->rec_n; c.src.rec_cap = REC_CAP;
        int r = run_case(c, slot);
        slot->evals++;
        if (r == 1) _exit(8);
        if (r == 2) { slot->discards++; continue; }
        for (auto &kv : c.labels) labels[kv.first] += kv.second;
        if (c.nontrivial) { slot->nontriv++; distinct.insert(fnv(slot->rec, slot->rec_n)); }
    }
    FILE *f = fopen((g_root + fmt("/stats.%d", w)).c_str(), "w");
    if (f) { write_labels(f, labels); fclose(f); }
    f = fopen((g_root + fmt("/hashes.%d", w)).c_str(), "w");
    if (f) { for (uint64_t h : distinct) fwrite(&h, 8, 1, f); fclose(f); }
    slot->status = 2;
    _exit(0);
}

struct RunResult { bool failed; bool crashed; std::string tag, msg, trace; std::vector<uint32_t> rec; bool nontrivial; };

static std::string slurp(const std::string &p, size_t max = 1 << 20)
{
    std::string r; FILE *f = fopen(p.c_str(), "r"); if (!f) return r;
    char buf[4096]; size_t k; while ((k = fread(buf, 1, sizeof buf, f)) > 0 && r.size() < max) r.append(buf, k);
    fclose(f); return r;
}
static std::string crash_summary(int status, const std::string &errfile)
{
    std::string e = slurp(errfile), m;
    size_t p = e.find("ERROR: AddressSanitizer");
    if (p == std::string::npos) p = e.find("runtime error");
    if (p == std::string::npos) p = e.find("Assertion");
    if (WIFSIGNALED(status)) m = fmt("killed by signal %d", WTERMSIG(status));
    else m = fmt("exited with status %d", WEXITSTATUS(status));
    if (p != std::string::npos) {
        size_t q = p > 80 ? p - 80 : 0; m += "\n" + e.substr(q, 2500);
    } else m += "\n" + e.substr(0, 1200);
    return m;
}

static int g_child_no = 0;
static pid_t spawn_one(const std::vector<uint32_t> *rep, uint64_t case_no, Slot *slot, bool tracing,
                       const std::string &base, uint64_t prefix_from, int prefix_stride)
{
    slot->rec_n = 0; slot->status = 0; slot->tag[0] = slot->msg[0] = 0;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (pid) return pid;
    if (!getenv("PBT_TRACE")) redirect_stderr(base + ".err");
    g_my_slot = slot;
    signal(SIGPROF, on_limit); signal(SIGALRM, on_limit);
    if (prefix_stride) {           // re-run the same worker's earlier cases first
        for (uint64_t i = prefix_from; i < case_no; i += prefix_stride) {
            Ctx c; c.case_no = i; c.thorough = g_thorough; slot->cur_case = i; slot->rec_n = 0;
            seed_src(c.src, i);
            c.src.rec = slot->rec; c.src.rec_n = &slot->rec_n; c.src.rec_cap = REC_CAP;
            if (run_case(c, slot) == 1) _exit(8);
        }
    }
    Ctx c; c.case_no = case_no; c.tracing = tracing; c.thorough = g_thorough;
    slot->cur_case = case_no; slot->rec_n = 0;
    if (rep) { c.src.replay = true; c.src.rep = rep->data(); c.src.rep_n = rep->size(); }
    else seed_src(c.src, case_no);
    c.src.rec = slot->rec; c.src.rec_n = &slot->rec_n; c.src.rec_cap = REC_CAP;
    if (tracing) c.trace_fd = open((base + ".trace").c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    int r = run_case(c, slot);
    _exit(r == 1 ? 8 : (c.nontrivial ? 10 : 0));
}
static RunResult collect(pid_t pid, Slot *slot, const std::string &base, bool tracing)
{
    RunResult rr; rr.failed = rr.crashed = rr.nontrivial = false;
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 10)) rr.nontrivial = WEXITSTATUS(st) == 10;
    else {
        rr.failed = true;
        if (slot->status == 1) { rr.tag = slot->tag; rr.msg = slot->msg; }
        else { rr.crashed = true; rr.tag = "crash"; rr.msg = crash_summary(st, base + ".err"); }
    }
    rr.rec.assign(slot->rec, slot->rec + std::min<size_t>(slot->rec_n, REC_CAP));
    if (tracing) rr.trace = slurp(base + ".trace");
    // a child that died left its scratch directory behind
    rm_rf(g_root + fmt("/w%d", (int)pid));
    unlink((base + ".err").c_str()); unlink((base + ".trace").c_str());
    return rr;
}
static RunResult run_one(const std::vector<uint32_t> *rep, uint64_t case_no, Slot *slot, bool tracing,
                         uint64_t pf = 0, int ps = 0)
{
    std::string base = g_root + fmt("/one.%d", g_child_no++);
    pid_t p = spawn_one(rep, case_no, slot, tracing, base, pf, ps);
    return collect(p, slot, base, tracing);
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }

// Shrinks by editing the choice sequence; several candidates run in parallel.
static std::vector<uint32_t> shrink(std::vector<uint32_t> best, const std::string &tag, double budget, uint64_t &tried)
{
    const int K = 8;
    static Slot *slots[K];
    for (int i = 0; i < K; i++) if (!slots[i]) slots[i] = new_slot();
    double t0 = now();
    auto trim = [](std::vector<uint32_t> v) { while (!v.empty() && v.back() == 0) v.pop_back(); return v; };
    best = trim(best);
    // tries candidates; adopts the first (in order) that fails with the same tag
    auto try_batch = [&](std::vector<std::vector<uint32_t>> &cands) -> bool {
        for (size_t i = 0; i < cands.size(); i += K) {
            size_t m = std::min<size_t>(K, cands.size() - i);
            pid_t pids[K]; std::string bases[K];
            for (size_t j = 0; j < m; j++) {
                bases[j] = g_root + fmt("/one.%d", g_child_no++);
                pids[j] = spawn_one(&cands[i + j], 0, slots[j], false, bases[j], 0, 0);
            }
            int win = -1; std::vector<uint32_t> wrec;
            for (size_t j = 0; j < m; j++) {
                RunResult rr = collect(pids[j], slots[j], bases[j], false);
                tried++;
                if (win < 0 && rr.failed && rr.tag == tag) {
                    win = (int)j; wrec = trim(rr.rec.size() < cands[i + j].size() ? rr.rec : cands[i + j]);
                }
            }
            if (win >= 0) { if (wrec.size() < best.size() || wrec < best) { best = wrec; return true; } }
            if (now() - t0 > budget) return false;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() - t0 < budget) {
        progress = false;
        for (size_t chunk = std::max<size_t>(best.size() / 2, 1); chunk >= 1; chunk = chunk > 8 ? chunk / 2 : chunk - 1) {
            size_t i = 0;
            while (i < best.size() && now() - t0 < budget) {
                std::vector<std::vector<uint32_t>> cs; 
                size_t k = i;
                for (int b = 0; b < K && k < best.size(); b++, k += std::max<size_t>(1, chunk > 8 ? chunk : 1)) {
                    std::vector<uint32_t> v(best);
                    v.erase(v.begin() + k, v.begin() + std::min(v.size(), k + chunk));
                    cs.push_back(v);
                }
                if (try_batch(cs)) progress = true; else i = k;
            }
        }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; ) {
            std::vector<std::vector<uint32_t>> cs; size_t k = i;
            for (; k < best.size() && cs.size() < (size_t)K; k++) {
                if (!best[k]) continue;
                std::vector<uint32_t> v(best); v[k] = 0; cs.push_back(v);
                if (best[k] > 1) { v = best; v[k] = best[k] / 2; cs.push_back(v); v = best; v[k] = best[k] - 1; cs.push_back(v); }
            }
            if (cs.empty()) { i = k; continue; }
            if (try_batch(cs)) progress = true; else i = k;
        }
    }
    return best;
}

static std::string jstr(const std::string &s)
{
    std::string r = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += (char)ch; }
        else if (ch == '\n') r += "\\n"; else if (ch == '\t') r += "\\t";
        else if (ch < 32 || ch >= 127) r += fmt("\\u%04x", ch);
        else r += (char)ch;
    }
    return r + "\"";
}

static void write_replay(const std::string &path, const RunResult &rr, const std::vector<uint32_t> &rec, uint64_t case_no,
                         uint64_t pf, int ps)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "property %s\nseed %llu\ncase %llu\ntier %s\ntag %s\n", g_prop->id, (unsigned long long)g_seed,
            (unsigned long long)case_no, g_thorough ? "thorough" : "quick", rr.tag.c_str());
    if (ps) fprintf(f, "prefix %llu %d\n", (unsigned long long)pf, ps);
    else { fprintf(f, "choices %zu", rec.size()); for (uint32_t v : rec) fprintf(f, " %u", v); fprintf(f, "\n"); }
    fprintf(f, "--- failure\n%s\n--- case\n%s\n", rr.msg.c_str(), rr.trace.c_str());
    fclose(f);
}

static const Prop *find_prop(const char *id)
{
    for (const Prop *p = the_props; p->id; p++) if (!strcmp(p->id, id)) return p;
    return nullptr;
}

static int do_replay(const char *file)
{
    FILE *f = fopen(file, "r"); if (!f) { perror(file); return 3; }
    char key[64]; std::vector<uint32_t> rec; uint64_t case_no = 0, pf = 0; int ps = 0;
    char id[32] = "", tier[32] = "quick", tag[64] = "";
    while (fscanf(f, "%63s", key) == 1) {
        unsigned long long u;
        if (!strcmp(key, "property")) { if (fscanf(f, "%31s", id) != 1) break; }
        else if (!strcmp(key, "seed")) { if (fscanf(f, "%llu", &u) != 1) break; g_seed = u; }
        else if (!strcmp(key, "case")) { if (fscanf(f, "%llu", &u) != 1) break; case_no = u; }
        else if (!strcmp(key, "tier")) { if (fscanf(f, "%31s", tier) != 1) break; }
        else if (!strcmp(key, "tag")) { if (fscanf(f, "%63s", tag) != 1) break; }
        else if (!strcmp(key, "prefix")) { if (fscanf(f, "%llu %d", &u, &ps) != 2) break; pf = u; }
        else if (!strcmp(key, "choices")) { size_t n; if (fscanf(f, "%zu", &n) != 1) break; for (size_t i = 0; i < n; i++) { unsigned v; if (fscanf(f, "%u", &v) != 1) break; rec.push_back(v); } }
        else break;
    }
    fclose(f);
    g_prop = find_prop(id); if (!g_prop) { fprintf(stderr, "unknown property in %s\n", file); return 3; }
    g_thorough = !strcmp(tier, "thorough");
    Slot *slot = new_slot();
    RunResult rr = run_one(ps ? nullptr : &rec, case_no, slot, true, pf, ps);
    printf("%s\n--- %s %s\n%s\n", rr.trace.c_str(), rr.failed ? "FAILED" : "passed", rr.tag.c_str(), rr.msg.c_str());
    return rr.failed ? 1 : 0;
}

static volatile sig_atomic_t g_stop;
static void on_term(int) { g_stop = 1; }

int main(int argc, char **argv)
{
    setlocale(LC_ALL, "C.UTF-8");
    std::string prop, replay; uint64_t cases = 0, from = 0; int W = 8; double max_wall = 600, shrink_budget = 60; int one = -1;
    bool trace_one = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> const char * { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--prop") prop = val();
        else if (a == "--seed") g_seed = strtoull(val(), nullptr, 10);
        else if (a == "--tier") g_thorough = !strcmp(val(), "thorough");
        else if (a == "--cases") cases = strtoull(val(), nullptr, 10);
        else if (a == "--from") from = strtoull(val(), nullptr, 10);
        else if (a == "--workers") W = atoi(val());
        else if (a == "--root") g_root = val();
        else if (a == "--out") g_outdir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--case") one = atoi(val());
        else if (a == "--trace") trace_one = true;
        else if (a == "--max-wall") max_wall = atof(val());
        else if (a == "--shrink") shrink_budget = atof(val());
    }
    bool made_root = false;
    if (g_root.empty()) {
        char t1[] = "/dev/shm/ferretpbt.XXXXXX", t2[] = "/tmp/ferretpbt.XXXXXX";
        char *d = mkdtemp(t1); if (!d) d = mkdtemp(t2);
        if (!d) { perror("mkdtemp"); return 3; }
        g_root = d; made_root = true;
    }
    // frt_init installs crash handlers; keep the sanitizer's instead
    const char *fargv[] = { "ferretpbt" };
    int sigs[] = { SIGILL, SIGABRT, SIGFPE, SIGBUS, SIGSEGV }; struct sigaction olds[5];
    for (int i = 0; i < 5; i++) sigaction(sigs[i], nullptr, &olds[i]);
    frt_init(1, fargv);
    for (int i = 0; i < 5; i++) sigaction(sigs[i], &olds[i], nullptr);
    int ret = 0;
    if (!replay.empty()) { ret = do_replay(replay.c_str()); if (made_root) rm_rf(g_root); return ret; }
    g_prop = find_prop(prop.c_str());
    if (!g_prop) { fprintf(stderr, "no such property %s\n", prop.c_str()); if (made_root) rm_rf(g_root); return 3; }
    if (one >= 0) {
        Slot *slot = new_slot();
        RunResult rr = run_one(nullptr, (uint64_t)one, slot, trace_one || true);
        printf("%s\n--- %s %s\n%s\n", rr.trace.c_str(), rr.failed ? "FAILED" : "passed", rr.tag.c_str(), rr.msg.c_str());
        if (made_root) rm_rf(g_root);
        return rr.failed;
    }
    uint64_t n = cases ? cases : (g_thorough ? g_prop->thorough_cases : g_prop->quick_cases);
    n += from;
    double t0 = now();
    std::vector<Slot *> slots; std::vector<pid_t> pids;
    for (int w = 0; w < W; w++) {
        slots.push_back(new_slot());
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { redirect_stderr(g_root + fmt("/err.%d", w)); worker(w, W, from, n, slots[w], 0); }
        pids.push_back(p);
    }
    signal(SIGTERM, on_term);
    std::vector<int> done(W, 0), status(W, 0);
    int live = W; bool failed = false, capped = false; double fail_t = 0;
    while (live > 0) {
        for (int w = 0; w < W; w++) {
            if (done[w]) continue;
            int st; pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                done[w] = 1; status[w] = st; live--;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { if (!failed) { failed = true; fail_t = now(); } done[w] = 2; }
            }
        }
        if (live == 0) break;
        // After a failure the other workers get a short grace period, then stop.
        if ((failed && now() - fail_t > 2) || now() - t0 > max_wall || g_stop) {
            if (!failed) capped = true;
            for (int w = 0; w < W; w++) if (!done[w]) { kill(pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); rm_rf(g_root + fmt("/w%d", (int)pids[w])); done[w] = 3; live--; }
        }
        usleep(5000);
    }
    uint64_t evals = 0, nontriv = 0, disc = 0;
    for (auto *s : slots) { evals += s->evals; nontriv += s->nontriv; disc += s->discards; }
    std::unordered_set<uint64_t> distinct; std::map<std::string, uint64_t> labels;
    for (int w = 0; w < W; w++) {
        std::string h = slurp(g_root + fmt("/hashes.%d", w), 1u << 30);
        for (size_t i = 0; i + 8 <= h.size(); i += 8) { uint64_t v; memcpy(&v, h.data() + i, 8); distinct.insert(v); }
        FILE *f = fopen((g_root + fmt("/stats.%d", w)).c_str(), "r");
        if (f) { char k[128]; unsigned long long v; while (fscanf(f, "%127s %llu", k, &v) == 2) labels[k] += v; fclose(f); }
    }
    uint64_t distinct_n = distinct.size();
    int viol = 0; std::string replay_path, viol_msg, note;
    Slot *slot = new_slot();
    if (failed) {
        // lowest failing case first
        std::vector<std::pair<uint64_t, int>> order;
        for (int w = 0; w < W; w++) if (done[w] == 2) order.push_back({slots[w]->cur_case, w});
        std::sort(order.begin(), order.end());
        for (auto &o : order) {
            int w = o.second; uint64_t cn = o.first;
            bool hang = slots[w]->status == 1 && !strcmp(slots[w]->tag, "hang");
            std::vector<uint32_t> rec(slots[w]->rec, slots[w]->rec + std::min<size_t>(slots[w]->rec_n, REC_CAP));
            std::string first = slots[w]->status == 1 ? std::string(slots[w]->tag) + ": " + slots[w]->msg
                                                      : "crash: " + crash_summary(status[w], g_root + fmt("/err.%d", w));
            RunResult rr = run_one(&rec, cn, slot, true);
            uint64_t pf = 0; int ps = 0; uint64_t tried = 0;
            if (rr.failed) {
                if (!hang) {
                    std::vector<uint32_t> small = shrink(rec, rr.tag, shrink_budget, tried);
                    RunResult r2 = run_one(&small, cn, slot, true);
                    if (r2.failed) { rr = r2; rec = small; }
                }
                bool again = true;
                for (int k = 0; k < 2 && again; k++) again = run_one(&rec, cn, slot, false).failed;
                if (!again) { note += fmt("case %llu did not fail on every replay; ", (unsigned long long)cn); continue; }
            } else {
                // perhaps it depends on earlier cases of the same worker
                pf = from + w; ps = W;
                rr = run_one(nullptr, cn, slot, true, pf, ps);
                bool again = rr.failed;
                for (int k = 0; k < 2 && again; k++) again = run_one(nullptr, cn, slot, false, pf, ps).failed;
                if (!again) { note += fmt("case %llu failed once (%s) but not on replay; ", (unsigned long long)cn, first.substr(0, 300).c_str()); continue; }
            }
            mkdir(g_outdir.c_str(), 0755);
            replay_path = g_outdir + fmt("/%s-seed%llu-case%llu.replay", g_prop->id, (unsigned long long)g_seed, (unsigned long long)cn);
            write_replay(replay_path, rr, rec, cn, pf, ps);
            viol = 1; viol_msg = rr.tag + ": " + rr.msg;
            printf("case %llu: %s\n", (unsigned long long)cn, viol_msg.substr(0, 3000).c_str());
            printf("shrunk to %zu choices (%llu candidates)\n%s\n", rec.size(), (unsigned long long)tried, rr.trace.substr(0, 6000).c_str());
            break;
        }
    }
    // samples: the first non-trivial cases, written out
    std::string samples; int ns = 0;
    for (uint64_t i = from; i < n && i < from + 40 && ns < 3; i++) {
        if (viol) break;
        RunResult rr = run_one(nullptr, i, slot, true);
        if (rr.failed || !rr.nontrivial) continue;
        std::string t = rr.trace; if (t.size() > 1800) t = t.substr(0, 1800) + "...";
        samples += std::string(ns ? ", " : "") + jstr(fmt("case %llu:\n", (unsigned long long)i) + t); ns++;
    }
    if (!g_outdir.empty()) {
        mkdir(g_outdir.c_str(), 0755);
        FILE *f = fopen((g_outdir + "/" + g_prop->id + ".stats.json").c_str(), "w");
        if (f) {
            fprintf(f, "{\"evaluations\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"capped\": %s, \"wall\": %.2f,\n",
                    (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)distinct_n, (unsigned long long)disc, capped ? "true" : "false", now() - t0);
            fprintf(f, " \"rule\": %s, \"level\": %s, \"note\": %s, \"violation\": %s, \"replay\": %s,\n", jstr(g_prop->rule).c_str(), jstr(g_prop->level).c_str(),
                    jstr(note).c_str(), jstr(viol_msg.substr(0, 2000)).c_str(), jstr(replay_path).c_str());
            fprintf(f, " \"labels\": {"); bool first = true;
            for (auto &kv : labels) { fprintf(f, "%s%s: %llu", first ? "" : ", ", jstr(kv.first).c_str(), (unsigned long long)kv.second); first = false; }
            fprintf(f, "},\n \"samples\": [%s]}\n", samples.c_str());
            fclose(f);
        }
    }
    printf("%s: %llu cases, %llu non-trivial (%llu distinct), %llu discarded, %.1fs%s%s\n", g_prop->id, (unsigned long long)evals,
           (unsigned long long)nontriv, (unsigned long long)distinct_n, (unsigned long long)disc, now() - t0, capped ? " [time cap]" : "",
           note.empty() ? "" : (" note: " + note).c_str());
    if (getenv("PBT_LABELS")) for (auto &kv : labels) printf("  %-40s %llu\n", kv.first.c_str(), (unsigned long long)kv.second);
    if (viol) { printf("VIOLATION property=%s replay=%s\n", g_prop->id, replay_path.c_str()); ret = 1; }
    if (made_root) rm_rf(g_root);
    return ret;
}

// Large blocks of bzlib, kept for reuse (allocating them anew under AddressSanitizer is very slow).
#undef malloc
#undef free
static std::map<size_t, std::vector<void *>> bz_free;
extern "C" void *vp_cached_malloc(size_t n)
{
    auto &v = bz_free[n]; size_t *p;
    if (!v.empty()) { p = (size_t *)v.back(); v.pop_back(); } else p = (size_t *)malloc(n + 16);
    p[0] = n; return p + 2;
}
extern "C" void vp_cached_free(void *q) { if (q) { size_t *p = (size_t *)q - 2; bz_free[p[0]].push_back(p); } }
