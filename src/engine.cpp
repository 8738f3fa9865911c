// Choice-sequence property-testing engine: generation, forked workers, shrinking, replay.
#include "vp.hpp"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <fcntl.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace vp {

std::vector<Job> &jobs() { static std::vector<Job> j; return j; }

std::string fmt(const char *f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
void fail(const char *f, ...) {
    char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Fail{b};
}
std::string hex(const bytes &b, size_t max) {
    std::string s; char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, sizeof t, "%02x", (unsigned char)b[i]); s += t; }
    if (b.size() > max) s += fmt("...(%zu bytes)", b.size());
    return s;
}
std::string show(const text &t, size_t max) {
    std::string s;
    for (size_t i = 0; i < t.size() && i < max; i++) s += fmt("%s%04X", i ? " " : "", t[i]);
    if (t.size() > max) s += fmt("...(%zu chars)", t.size());
    return s;
}
uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    h = (h + 0x9E3779B97F4A7C15ull + n) * 0xbf58476d1ce4e5b9ull; h ^= h >> 31;
    const unsigned char *c = (const unsigned char *)p;
    while (n >= 8) { uint64_t k; memcpy(&k, c, 8); h = (h ^ k) * 0xff51afd7ed558ccdull; h ^= h >> 32; c += 8; n -= 8; }
    while (n--) { h = (h ^ *c++) * 0x100000001b3ull; }
    h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 29;
    return h;
}

static uint64_t splitmix(uint64_t &s) { uint64_t z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }

uint32_t Src::draw(uint32_t n) {
    uint32_t v;
    if (n == 0) n = 1;
    if (fz) {
        v = 0; int k = n <= 256 ? 1 : n <= 65536 ? 2 : 4;
        while (k--) { v = v << 8; if (pos < nfz) v |= fz[pos++]; }
        v %= n;
    } else if (rep) {
        v = pos < nrep ? rep[pos] : 0; pos++;
        if (v >= n) v %= n;
    } else v = (uint32_t)((splitmix(st) >> 32) * (uint64_t)n >> 32);
    if (log) { uint32_t k = *nlog; if (k < caplog) { log[k] = v; *nlog = k + 1; } else throw Discard{}; }
    return v;
}
uint32_t Src::small(uint32_t max) {
    switch (draw(8)) {
    case 0: return 0;
    case 1: return std::min(max, 1u);
    case 2: case 3: return draw(std::min(max, 4u) + 1);
    case 4: case 5: return draw(std::min(max, 16u) + 1);
    case 6: return draw(std::min(max, 64u) + 1);
    default: return draw(max + 1);
    }
}

// ------------------------------------------------------------------ statistics
static std::map<std::string, uint64_t> g_labels;
static std::unordered_set<uint64_t> g_nontriv;
static uint64_t g_evals;
static std::vector<std::string> g_samples;
static bool g_thorough; static uint64_t g_seed = 1; static bool g_quiet_stats;
bool thorough() { return g_thorough; }
uint64_t base_seed() { return g_seed; }
void label(const std::string &l, uint64_t n) { if (!g_quiet_stats) g_labels[l] += n; }
void nontrivial(uint64_t h) { if (!g_quiet_stats && g_nontriv.size() < 400000) g_nontriv.insert(h); }
static volatile uint64_t g_progress, g_last_progress;
void evals(uint64_t n) { g_progress = g_progress + 1; if (!g_quiet_stats) g_evals += n; }
void sample(const std::string &s) { if (!g_quiet_stats && g_samples.size() < 3 && s.size() < 600) g_samples.push_back(s); }

// ------------------------------------------------------------------ workers
enum { CAPLOG = 1 << 20, HIST = 1 << 14 };
struct Shared {
    volatile uint64_t cur;      // case being run
    volatile uint32_t nlog;
    volatile uint32_t state;    // 0 idle, 1 running, 2 failed with message, 3 hang
    volatile uint32_t nhist;    // cases run by the current process
    char msg[8192];
    uint64_t hist[HIST];
    uint32_t log[CAPLOG];
};
static Shared *g_sh; // of this worker
// A case (or one evaluation of a sweep) that makes no progress for the whole allowance of CPU time counts as a hang.
static void on_alarm(int) { if (g_progress != g_last_progress) { g_last_progress = g_progress; return; } if (g_sh) { snprintf((char *)g_sh->msg, sizeof g_sh->msg, "hang: the case used more than its CPU-time allowance"); g_sh->state = 3; } _exit(98); }
static void arm(int secs) { struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs; it.it_interval.tv_sec = secs; g_last_progress = g_progress; setitimer(ITIMER_PROF, &it, nullptr); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static uint64_t case_seed(const Job &j, uint64_t idx) { uint64_t h = hash_str(j.name, g_seed * 0x9E3779B97F4A7C15ull + 12345); return hash_bytes(&idx, 8, h); }

// Runs one case. Returns true if it passed (or was discarded).
static bool run_case(const Job &j, uint64_t idx, const std::vector<uint32_t> *choices, std::string &msg) {
    g_sh->nlog = 0;
    Src S; S.log = g_sh->log; S.nlog = &g_sh->nlog; S.caplog = CAPLOG;
    if (choices) { S.rep = choices->data(); S.nrep = choices->size(); static uint32_t z; if (!S.rep) S.rep = &z; }
    else S.st = case_seed(j, idx);
    try {
        if (j.sf) j.sf((size_t)idx); else j.cf(S);
        return true;
    } catch (Fail &f) { msg = f.msg; return false; }
    catch (Discard &) { label("discarded"); return true; }
    catch (std::exception &e) { msg = std::string("unexpected exception: ") + e.what(); return false; }
}

static int g_cpu_limit = 30;
struct Opts { std::string job, out, rdir, replay, prop; uint64_t count = 1000; int workers = 8; double soft = 1e9; bool fork1 = false; };
static Opts O;

static void dump_stats(const std::string &path) {
    FILE *f = fopen(path.c_str(), "wb"); if (!f) return;
    uint64_t n = g_evals; fwrite(&n, 8, 1, f);
    n = g_nontriv.size(); fwrite(&n, 8, 1, f);
    for (uint64_t h : g_nontriv) fwrite(&h, 8, 1, f);
    n = g_labels.size(); fwrite(&n, 8, 1, f);
    for (auto &p : g_labels) { uint32_t l = p.first.size(); fwrite(&l, 4, 1, f); fwrite(p.first.data(), 1, l, f); fwrite(&p.second, 8, 1, f); }
    n = g_samples.size(); fwrite(&n, 8, 1, f);
    for (auto &s : g_samples) { uint32_t l = s.size(); fwrite(&l, 4, 1, f); fwrite(s.data(), 1, l, f); }
    fclose(f);
}
static std::unordered_set<uint64_t> A_nontriv; static std::map<std::string, uint64_t> A_labels; static std::vector<std::string> A_samples; static uint64_t A_evals;
static void merge_stats(const std::string &path) {
    FILE *f = fopen(path.c_str(), "rb"); if (!f) return;
    auto rd = [&](void *p, size_t n) { return fread(p, 1, n, f) == n; };
    uint64_t n, m;
    if (rd(&n, 8)) A_evals += n;
    if (rd(&n, 8)) for (uint64_t i = 0; i < n && rd(&m, 8); i++) A_nontriv.insert(m);
    if (rd(&n, 8)) for (uint64_t i = 0; i < n; i++) { uint32_t l; if (!rd(&l, 4) || l > 100000) break; std::string s(l, 0); rd(&s[0], l); rd(&m, 8); A_labels[s] += m; }
    if (rd(&n, 8)) for (uint64_t i = 0; i < n; i++) { uint32_t l; if (!rd(&l, 4) || l > 100000) break; std::string s(l, 0); rd(&s[0], l); if (A_samples.size() < 8) A_samples.push_back(s); }
    fclose(f); unlink(path.c_str());
}

struct Global { std::atomic<uint64_t> next; std::atomic<int> stop; std::atomic<uint64_t> done; };
static Global *G;

static void redirect_stderr(const std::string &path) { int fd = open(path.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd >= 0) { dup2(fd, 2); close(fd); } }
static std::string slurp(const std::string &p, size_t max = 6000) { std::string s; FILE *f = fopen(p.c_str(), "rb"); if (!f) return s; char b[4096]; size_t n; while (s.size() < max && (n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

static void no_core() { struct rlimit r = {0, 0}; setrlimit(RLIMIT_CORE, &r); signal(SIGPROF, on_alarm); }

// Worker: takes case numbers until none are left; exit code 0 = out of work, 4 = please restart me, 3 = failure.
static void worker(const Job &j, int w, Shared *sh, const std::string &tmp, double t0, int gen) {
    g_sh = sh; no_core(); redirect_stderr(tmp + fmt("/err.%d", w));
    uint64_t mine = 0;
    sh->nhist = 0;
    int code = 0;
    uint64_t batch = j.sf || O.count < 1000 ? 1 : 16;
    for (;;) {
        if (G->stop.load() || now() - t0 > O.soft) break;
        uint64_t b = G->next.fetch_add(batch);
        if (b >= O.count) break;
        for (uint64_t i = b; i < std::min(b + batch, O.count); i++) {
            sh->cur = i; sh->state = 1;
            if (sh->nhist < HIST) { sh->hist[sh->nhist] = i; sh->nhist = sh->nhist + 1; }
            if ((mine++ & 15) == 0 || batch == 1) arm(g_cpu_limit);
            std::string msg;
            if (!j.sf) evals(1);
            if (!run_case(j, i, nullptr, msg)) { snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str()); sh->state = 2; dump_stats(tmp + fmt("/st.%d.%d", w, gen)); _exit(3); }
            sh->state = 0; G->done.fetch_add(1);
        }
        if (sh->nhist + batch >= HIST) { code = 4; break; }
    }
    arm(0);
    dump_stats(tmp + fmt("/st.%d.%d", w, gen));
    _exit(code);
}

// Runs one or more cases in a child. Result: 0 pass, 1 fail.
struct Probe { bool failed; std::string msg; };
static Shared *P_sh;
static Probe probe(const Job &j, const std::vector<std::pair<uint64_t, const std::vector<uint32_t> *>> &seq, const std::string &tmp) {
    P_sh->state = 0; P_sh->nlog = 0; P_sh->msg[0] = 0;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        g_sh = P_sh; no_core(); redirect_stderr(tmp + "/err.probe"); g_quiet_stats = true;
        for (auto &c : seq) {
            arm(g_cpu_limit);
            P_sh->state = 1; std::string msg;
            if (!run_case(j, c.first, c.second, msg)) { snprintf(P_sh->msg, sizeof P_sh->msg, "%s", msg.c_str()); P_sh->state = 2; _exit(3); }
        }
        _exit(0);
    }
    int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return {false, ""};
    std::string m;
    if (P_sh->state == 2 || P_sh->state == 3) m = P_sh->msg;
    else m = (WIFSIGNALED(st) ? fmt("crash: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("crash: process ended with code %d", WEXITSTATUS(st))) + "\n" + slurp(tmp + "/err.probe", 3000);
    return {true, m};
}

static std::vector<uint32_t> shrink(const Job &j, std::vector<uint32_t> c, const std::string &tmp, double budget) {
    double t0 = now(); int tries = 0;
    auto bad = [&](const std::vector<uint32_t> &k) { tries++; return probe(j, {{0, &k}}, tmp).failed; };
    auto over = [&] { return now() - t0 > budget || tries > 6000; };
    bool again = true;
    while (again && !over()) {
        again = false;
        for (size_t len = std::max<size_t>(c.size() / 2, 1); len >= 1 && !over(); len /= 2) {
            for (size_t i = 0; i + len <= c.size() && !over();) {
                std::vector<uint32_t> k(c.begin(), c.begin() + i); k.insert(k.end(), c.begin() + i + len, c.end());
                if (bad(k)) { c = k; again = true; } else i += len;
            }
            if (len == 1) break;
        }
        for (size_t i = 0; i < c.size() && !over(); i++) if (c[i]) {
            std::vector<uint32_t> k = c; k[i] = 0;
            if (bad(k)) { c = k; again = true; continue; }
            uint32_t lo = 0, hi = c[i];
            while (hi - lo > 1 && !over()) { uint32_t mid = lo + (hi - lo) / 2; k[i] = mid; if (bad(k)) { hi = mid; c[i] = mid; again = true; } else lo = mid; }
        }
    }
    while (!c.empty() && c.back() == 0) c.pop_back();
    return c;
}

static std::string jesc(const std::string &s) { std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c); else o += c; } return o; }

static void write_json(const std::string &path, const Job &j, const std::string &viol, const std::string &replay, const std::string &note, double wall, uint64_t done) {
    FILE *f = fopen(path.c_str(), "w"); if (!f) { perror(path.c_str()); exit(2); }
    fprintf(f, "{\"job\":\"%s\",\"cases\":%llu,\"evaluations\":%llu,\"distinct_nontrivial\":%zu,\"wall_s\":%.2f,\n", j.name.c_str(), (unsigned long long)done, (unsigned long long)A_evals, A_nontriv.size(), wall);
    fprintf(f, "\"labels\":{"); bool first = true; for (auto &p : A_labels) { fprintf(f, "%s\"%s\":%llu", first ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); first = false; }
    fprintf(f, "},\n\"samples\":["); first = true; for (auto &s : A_samples) { fprintf(f, "%s\"%s\"", first ? "" : ",", jesc(s).c_str()); first = false; }
    fprintf(f, "],\n\"note\":\"%s\",\"violation\":\"%s\",\"replay\":\"%s\"}\n", jesc(note).c_str(), jesc(viol).c_str(), jesc(replay).c_str());
    fclose(f);
}

static const Job *find_job(const std::string &n) { for (auto &j : jobs()) if (j.name == n) return &j; return nullptr; }

static int do_replay(const std::string &path) {
    FILE *f = fopen(path.c_str(), "r"); if (!f) { perror(path.c_str()); return 2; }
    std::string job; std::vector<uint64_t> hist; std::vector<uint32_t> ch; bool have = false; char line[1 << 16]; std::string rest;
    std::string all; size_t n; while ((n = fread(line, 1, sizeof line, f)) > 0) all.append(line, n); fclose(f);
    size_t p = 0;
    while (p < all.size()) {
        size_t e = all.find('\n', p); if (e == std::string::npos) e = all.size();
        std::string l = all.substr(p, e - p); p = e + 1;
        if (l.rfind("job ", 0) == 0) job = l.substr(4);
        else if (l.rfind("seed ", 0) == 0) g_seed = strtoull(l.c_str() + 5, nullptr, 10);
        else if (l.rfind("tier ", 0) == 0) g_thorough = l.substr(5) == "thorough";
        else if (l.rfind("cases ", 0) == 0) { char *q = &l[6]; while (*q) { char *r; uint64_t v = strtoull(q, &r, 10); if (r == q) break; hist.push_back(v); q = r; } }
        else if (l.rfind("choices", 0) == 0) { have = true; char *q = &l[7]; while (*q) { char *r; uint32_t v = strtoul(q, &r, 10); if (r == q) break; ch.push_back(v); q = r; } }
    }
    const Job *j = find_job(job); if (!j) { fprintf(stderr, "no job %s\n", job.c_str()); return 2; }
    std::vector<std::pair<uint64_t, const std::vector<uint32_t> *>> seq;
    if (have) seq.push_back({0, &ch}); else for (auto h : hist) seq.push_back({h, nullptr});
    char tmpl[] = "/tmp/vpreplayXXXXXX"; std::string tmp = mkdtemp(tmpl);
    Probe r = probe(*j, seq, tmp);
    unlink((tmp + "/err.probe").c_str()); rmdir(tmp.c_str());
    if (r.failed) { printf("REPRODUCED: %s\n", r.msg.c_str()); return 1; }
    printf("replay passes\n"); return 0;
}

int engine_main(int argc, char **argv) {
    bool list = false; bool flaky_ok = false; int confirms = 3;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto v = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--job") O.job = v(); else if (a == "--count") O.count = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--seed") g_seed = strtoull(v().c_str(), nullptr, 10);
        else if (a == "--workers") O.workers = atoi(v().c_str()); else if (a == "--out") O.out = v();
        else if (a == "--rdir") O.rdir = v(); else if (a == "--replay") O.replay = v(); else if (a == "--tier") g_thorough = v() == "thorough";
        else if (a == "--soft") O.soft = atof(v().c_str()); else if (a == "--cpu") g_cpu_limit = atoi(v().c_str());
        else if (a == "--prop") O.prop = v(); else if (a == "--list") list = true; else if (a == "--flaky") flaky_ok = true; else if (a == "--confirm") confirms = atoi(v().c_str());
    }
    if (list) { for (auto &j : jobs()) printf("%s\n", j.name.c_str()); return 0; }
    P_sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    G = (Global *)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (!O.replay.empty()) return do_replay(O.replay);
    const Job *j = find_job(O.job);
    if (!j) { fprintf(stderr, "unknown job %s\n", O.job.c_str()); return 2; }
    if (j->sf) O.count = std::min<uint64_t>(O.count, j->sn());
    double t0 = now();
    char tmpl[] = "/tmp/vprunXXXXXX"; if (!mkdtemp(tmpl)) { perror("mkdtemp"); return 2; } std::string tmp = tmpl;
    std::vector<Shared *> sh; std::vector<pid_t> pid; std::vector<int> gen;
    for (int w = 0; w < O.workers; w++) { sh.push_back((Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0)); gen.push_back(0); }
    auto start = [&](int w) { fflush(stdout); pid_t p = fork(); if (p == 0) worker(*j, w, sh[w], tmp, t0, gen[w]); return p; };
    for (int w = 0; w < O.workers; w++) pid.push_back(start(w));
    int live = O.workers; std::string viol, replay, note; int flakes = 0;
    while (live > 0) {
        int st; pid_t p = wait(&st); if (p < 0) { if (errno == EINTR) continue; break; }
        int w = -1; for (int k = 0; k < O.workers; k++) if (pid[k] == p) w = k;
        if (w < 0) continue;
        merge_stats(tmp + fmt("/st.%d.%d", w, gen[w]));
        bool restart = false;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { live--; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 4) restart = true;
        else if (!viol.empty()) { live--; continue; }
        else {
            // A failing case: stop the others, confirm, shrink, write the replay file.
            std::string m;
            if (sh[w]->state == 2 || sh[w]->state == 3) m = sh[w]->msg;
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { fprintf(stderr, "worker killed (out of memory?)\n"); note += "worker killed; "; restart = flakes++ < 5; if (!restart) live--; if (restart) goto again; continue; }
            else m = (WIFSIGNALED(st) ? fmt("crash: killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("crash: process ended with code %d", WEXITSTATUS(st))) + "\n" + slurp(tmp + fmt("/err.%d", w), 3000);
            uint64_t idx = sh[w]->cur;
            auto confirm = [&](const std::vector<std::pair<uint64_t, const std::vector<uint32_t> *>> &seq, std::string &msg) {
                int ok = 0, tries = flaky_ok ? 60 : confirms, need = flaky_ok ? 1 : confirms; // schedules: once is enough
                for (int t = 0; t < tries && ok < need; t++) { Probe r = probe(*j, seq, tmp); if (r.failed) { ok++; msg = r.msg; } }
                return ok >= need;
            };
            std::string msg; G->stop = 1; // others finish their current case
            bool hung = sh[w]->state == 3; if (hung) confirms = 1; // each attempt takes the whole allowance
            std::string body;
            if (confirm({{idx, nullptr}}, msg)) {
                if (j->sf) body = fmt("cases %llu\n", (unsigned long long)idx);
                else {
                    // The choices of this case, regenerated by the probe in shared memory.
                    std::vector<uint32_t> c(P_sh->log, P_sh->log + P_sh->nlog);
                    if (confirm({{0, &c}}, msg)) {
                        if (hung) { int was = g_cpu_limit; g_cpu_limit = std::min(was, 8); std::vector<uint32_t> k = shrink(*j, c, tmp, 60); g_cpu_limit = was; std::string m3; if (k.size() < c.size() && confirm({{0, &k}}, m3)) c = k; }
                        std::vector<uint32_t> s = hung ? c : shrink(*j, c, tmp, flaky_ok ? 40 : 90);
                        std::string m2; if (!hung && confirm({{0, &s}}, m2)) { c = s; msg = m2; }
                        body = "choices"; for (auto v : c) body += fmt(" %u", v); body += "\n";
                    } else body = fmt("cases %llu\n", (unsigned long long)idx);
                }
                viol = msg;
            } else {
                // Not reproducible alone: replay with the history of the process (state leaking between cases).
                std::vector<uint64_t> h(sh[w]->hist, sh[w]->hist + sh[w]->nhist);
                auto seqof = [&](const std::vector<uint64_t> &v) { std::vector<std::pair<uint64_t, const std::vector<uint32_t> *>> s; for (auto x : v) s.push_back({x, nullptr}); return s; };
                if (confirm(seqof(h), msg)) {
                    double t1 = now();
                    for (size_t len = h.size() / 2; len >= 1 && now() - t1 < 60; len /= 2)
                        for (size_t i = 0; i + len < h.size() && now() - t1 < 60;) {
                            std::vector<uint64_t> k(h.begin(), h.begin() + i); k.insert(k.end(), h.begin() + i + len, h.end());
                            if (probe(*j, seqof(k), tmp).failed) h = k; else i += len;
                        }
                    confirm(seqof(h), msg);
                    viol = "(after earlier cases in the same process) " + msg; body = "cases"; for (auto v : h) body += fmt(" %llu", (unsigned long long)v); body += "\n";
                } else {
                    // The check never reports what it cannot replay.
                    note += fmt("unreproducible failure at case %llu: %s; ", (unsigned long long)idx, m.substr(0, 500).c_str());
                    fprintf(stderr, "unreproducible: %s\n", m.c_str());
                    G->stop = 0; restart = flakes++ < 20; if (!restart) { live--; continue; }
                }
            }
            if (!viol.empty()) {
                mkdir(O.rdir.c_str(), 0755);
                replay = O.rdir + "/" + O.prop + "-" + fmt("%016llx", (unsigned long long)hash_str(body, hash_str(j->name))) + ".replay";
                FILE *f = fopen(replay.c_str(), "w");
                if (f) {
                    std::string c; for (char ch : viol) { c += ch; if (ch == '\n') c += "# "; }
                    fprintf(f, "# %s\njob %s\nseed %llu\ntier %s\n%s", c.c_str(), j->name.c_str(), (unsigned long long)g_seed, g_thorough ? "thorough" : "quick", body.c_str());
                    fclose(f);
                }
                live--; continue;
            }
        }
    again:
        if (restart) { gen[w]++; pid[w] = start(w); }
    }
    std::string cmd = "rm -rf " + tmp; if (tmp.rfind("/tmp/vprun", 0) == 0 && system(cmd.c_str())) {}
    uint64_t done = G->done.load();
    if (done < O.count && viol.empty()) note += fmt("stopped after %llu of %llu cases; ", (unsigned long long)done, (unsigned long long)O.count);
    write_json(O.out, *j, viol, replay, note, now() - t0, done);
    if (!viol.empty()) { printf("FAIL %s: %s\n", j->name.c_str(), viol.c_str()); return 1; }
    printf("ok %s: %llu cases, %llu evaluations, %zu distinct non-trivial, %.1f s%s%s\n", j->name.c_str(), (unsigned long long)done, (unsigned long long)A_evals, A_nontriv.size(), now() - t0, note.empty() ? "" : " NOTE ", note.c_str());
    return 0;
}

void engine_set(uint64_t seed, bool th) { g_seed = seed; g_thorough = th; g_quiet_stats = true; }
} // namespace vp

#ifndef VP_FUZZ
namespace vp { int engine_main(int, char **); }
int main(int argc, char **argv) { vp::load_encodings(); return vp::engine_main(argc, argv); }
#endif
