#include "mc.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <set>

namespace mc {

static const int kMaxPath = 4096, kMaxSlots = 16;
static const size_t kTable = 1u << 23;

struct Slot {
    volatile uint64_t beat;           // executions started by this slot
    volatile int suite; volatile size_t caseIdx; volatile int pathLen; volatile int active; // current execution
    Ctx::Pt path[kMaxPath];
    volatile int cont;                // 1: continue caseIdx with path, in a fresh process
    uint64_t execs, transitions, casesDone, validated, points, maxPath, diverged;
    volatile int failed; char msg[8192]; char key[512];
    char knownKeys[16][256]; int nKnown;
};
struct Shared {
    volatile uint64_t nextCase; volatile int stop; volatile int capped; volatile uint64_t states, outcomes, tableFull;
    Slot slots[kMaxSlots]; uint64_t table[kTable];
};
static Shared *S; static Slot *me;
static std::set<std::string> g_known;

std::string hex(const std::string &s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, sizeof b, "%02x", c); r += b; } return r; }
std::string show(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c == 27) r += "\\e"; else if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\\') r += "\\\\"; else if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r;
}
std::string fmt(const char *f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
uint64_t hash(const std::string &s, uint64_t h) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; return a; }

static bool insertHash(uint64_t h) { // true if new
    if (!h) h = 1;
    size_t i = (h * 0x9e3779b97f4a7c15ull) >> (64 - 23);
    for (size_t k = 0; k < 4096; k++, i = (i + 1) & (kTable - 1)) {
        uint64_t cur = __atomic_load_n(&S->table[i], __ATOMIC_RELAXED);
        if (cur == h) return false;
        if (!cur) { uint64_t z = 0; if (__atomic_compare_exchange_n(&S->table[i], &z, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) return true; if (z == h) return false; }
    }
    S->tableFull = 1; return false;
}

static int pick(Ctx &c, int n, const char *label, int cost) {
    if (n <= 1) return 0;
    int r;
    if (c.pos < c.path.size()) {
        r = c.path[c.pos].chosen;
        if (c.path[c.pos].n != n || r >= n) { c.diverged = true; r = 0; c.path.resize(c.pos); c.path.push_back({0, n, cost}); }
    } else {
        if (c.path.size() >= (size_t)kMaxPath) { c.fail("explorer: too many choice points in one execution"); return 0; }
        r = 0; c.path.push_back({0, n, cost});
    }
    c.pos++; if (r) c.devs += cost;
    if (me) { int k = (int)c.pos - 1; me->path[k] = c.path[k]; me->pathLen = (int)c.pos; }
    if (c.verbose) c.trace_ += fmt("  choice %zu: %s -> %d of %d\n", c.pos - 1, label, r, n);
    return r;
}
int Ctx::choose(int n, const char *l) {
    if (pos >= path.size() && devs >= bound) return 0; // beyond the bound only the default remains: no branch point
    return pick(*this, n, l, 1);
}
int Ctx::freeChoose(int n, const char *l) { return pick(*this, n, l, 0); }
bool Ctx::canDeviate() const { return devs < bound; }
void Ctx::fail(const std::string &m, const std::string &k) { if (!failed_) { failed_ = true; msg_ = m; key_ = k; } }
void Ctx::state(uint64_t h) { if (insertHash(mix(h, 0x51))) __atomic_add_fetch(&S->states, 1, __ATOMIC_RELAXED); }
void Ctx::step(uint64_t n) { if (me) me->transitions += n; }
void Ctx::outcome(uint64_t h) { if (insertHash(mix(h, 0x0c))) __atomic_add_fetch(&S->outcomes, 1, __ATOMIC_RELAXED); }
void Ctx::validated() { if (me) me->validated++; }

static double nowS() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// next path in depth-first order within the bound; false when the tree is exhausted
static bool advance(std::vector<Ctx::Pt> &p, int bound) {
    while (!p.empty()) {
        int devs = 0; for (size_t i = 0; i + 1 < p.size(); i++) if (p[i].chosen) devs += p[i].cost;
        Ctx::Pt &l = p.back();
        if (l.chosen + 1 < l.n && devs + l.cost <= bound) { l.chosen++; return true; }
        p.pop_back();
    }
    return false;
}

static void writeReplay(const std::string &file, const Check &c, int suite, size_t ci, const std::vector<Ctx::Pt> &path, const std::string &msg, bool thorough, const std::string &desc) {
    FILE *f = fopen(file.c_str(), "w"); if (!f) return;
    fprintf(f, "property %s\nsuite %d %s\ncase %zu\ntier %s\npath", c.id.c_str(), suite, c.suites[suite].name.c_str(), ci, thorough ? "thorough" : "quick");
    for (auto &p : path) fprintf(f, " %d/%d/%d", p.chosen, p.n, p.cost);
    fprintf(f, "\n# %s\n# %s\n", desc.c_str(), msg.c_str()); fclose(f);
}

static double g_deadline; static bool g_thorough;
// The static variables of the code under test: every execution starts with the values they have when the process starts.
extern "C" { extern char __start_product_state[] __attribute__((weak)); extern char __stop_product_state[] __attribute__((weak)); }
static std::vector<char> g_pristine;
static void keepStatics() { if (__start_product_state) g_pristine.assign(__start_product_state, __stop_product_state); }
void resetStatics() { if (!g_pristine.empty()) memcpy(__start_product_state, g_pristine.data(), g_pristine.size()); }

static void workerLoop(const Check &c, int suite, int slot) {
    me = &S->slots[slot];
    const Suite &su = c.suites[suite];
    size_t n = su.cases(g_thorough); int bound = su.bound(g_thorough);
    if (su.init) su.init();
    uint64_t mine = 0;
    for (;;) {
        if (S->stop) _exit(0);
        std::vector<Ctx::Pt> path; size_t ci; bool have = false;
        if (me->cont) { path.assign(me->path, me->path + me->pathLen); ci = me->caseIdx; me->cont = 0; have = true; }
        if (!have) {
            if (nowS() > g_deadline) { S->capped = 1; me->active = 0; _exit(0); }
            ci = __atomic_fetch_add(&S->nextCase, 1, __ATOMIC_RELAXED);
            if (ci >= n) { me->active = 0; _exit(0); }
        }
        for (;;) {
            if (mine >= su.recycle) { // continue in a fresh process
                for (size_t i = 0; i < path.size(); i++) me->path[i] = path[i];
                me->pathLen = path.size(); me->caseIdx = ci; me->cont = 1; _exit(77);
            }
            if (nowS() > g_deadline) { S->capped = 1; me->active = 0; _exit(0); }
            Ctx cx; cx.path = path; cx.bound = bound; cx.thorough = g_thorough;
            me->suite = suite; me->caseIdx = ci; for (size_t i = 0; i < path.size(); i++) me->path[i] = path[i]; me->pathLen = path.size(); me->active = 1; me->beat++;
            resetStatics(); su.run(cx, ci); mine++; me->execs++; me->active = 0; me->points += cx.pos; if (cx.pos > me->maxPath) me->maxPath = cx.pos;
            if (cx.diverged) me->diverged++;
            cx.path.resize(std::min(cx.path.size(), cx.pos));
            if (cx.failed_) {
                if (!cx.key_.empty() && g_known.count(cx.key_)) {
                    bool seen = false; for (int i = 0; i < me->nKnown; i++) if (cx.key_ == me->knownKeys[i]) seen = true;
                    if (!seen && me->nKnown < 16) { snprintf(me->knownKeys[me->nKnown], 256, "%s", cx.key_.c_str()); me->nKnown++; }
                } else {
                    for (size_t i = 0; i < cx.path.size(); i++) me->path[i] = cx.path[i];
                    me->pathLen = cx.path.size(); me->caseIdx = ci; snprintf(me->msg, sizeof me->msg, "%s", (cx.msg_ + (cx.note.empty() ? "" : "\n" + cx.note)).c_str()); snprintf(me->key, sizeof me->key, "%s", cx.key_.c_str());
                    me->failed = 1; _exit(78);
                }
            }
            path = cx.path;
            if (!advance(path, bound)) break;
        }
        me->casesDone++;
    }
}

// Runs one execution alone in a fresh process.  0 ok, 1 failed (msg), 2 crashed, 3 hung
static int runAlone(const Check &c, int suite, size_t ci, const std::vector<Ctx::Pt> &path, double limit, std::string &msg, bool verbose, uint64_t *sig = nullptr) {
    int fd[2]; if (pipe(fd)) return 0;
    fflush(stdout); pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); me = nullptr; const Suite &su = c.suites[suite]; su.cases(g_thorough); if (su.init) su.init();
        if (!verbose) { int n = open("/dev/null", O_WRONLY); if (n >= 0) dup2(n, 2); }
        Ctx cx; cx.path = path; cx.bound = su.bound(g_thorough); cx.thorough = g_thorough; cx.verbose = verbose;
        resetStatics(); su.run(cx, ci);
        std::string out = (cx.failed_ ? "F" : "O"); out += cx.failed_ ? cx.msg_ + (cx.note.empty() ? "" : "\n" + cx.note) : ""; if (verbose) out += "\n" + cx.trace_;
        size_t off = 0; while (off < out.size()) { ssize_t k = write(fd[1], out.data() + off, out.size() - off); if (k <= 0) break; off += k; }
        _exit(0);
    }
    close(fd[1]); fcntl(fd[0], F_SETFL, O_NONBLOCK); double t0 = nowS(); int st = 0; std::string all; char b[4096]; ssize_t k;
    for (;;) {
        while ((k = read(fd[0], b, sizeof b)) > 0) all.append(b, k);
        pid_t r = waitpid(pid, &st, WNOHANG); if (r == pid) break;
        if (nowS() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); close(fd[0]); msg = "the execution does not terminate"; return 3; }
        usleep(2000);
    }
    while ((k = read(fd[0], b, sizeof b)) > 0) all.append(b, k);
    close(fd[0]);
    if (WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0)) { msg = WIFSIGNALED(st) ? fmt("the code crashed (signal %d)", WTERMSIG(st)) : fmt("the code ended the process abnormally (status %d; sanitizer report or abort)", WEXITSTATUS(st)); return 2; }
    if (!all.empty() && all[0] == 'F') { msg = all.substr(1); return 1; }
    msg = all.empty() ? "" : all.substr(1); return 0;
}

static std::string jesc(const std::string &s) { std::string r; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32 || c > 126) r += fmt("\\u%04x", c); else r += c; } return r; }

int main(int argc, char **argv, const Check &c) {
    keepStatics(); std::string tier = "quick", evidence, replay, only; int jobs = 8; double budget = 0; std::string knownFile; std::vector<std::string> extra; bool list = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") tier = argv[++i]; else if (a == "--evidence") evidence = argv[++i]; else if (a == "--replay") replay = argv[++i]; else if (a == "--jobs") jobs = atoi(argv[++i]); else if (a == "--budget") budget = atof(argv[++i]); else if (a == "--known") knownFile = argv[++i]; else if (a == "--suite") only = argv[++i]; else if (a == "--list") list = true;
    }
    mallopt(M_MMAP_THRESHOLD, 1 << 30); mallopt(M_TRIM_THRESHOLD, 512 << 20); mallopt(M_TOP_PAD, 8 << 20); g_thorough = tier == "thorough"; setvbuf(stdout, nullptr, _IOLBF, 0); signal(SIGPIPE, SIG_IGN);
    if (!knownFile.empty()) { if (FILE *f = fopen(knownFile.c_str(), "r")) { char line[2048]; while (fgets(line, sizeof line, f)) { std::string l = line; while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back(); std::string pre = "finding: property=" + c.id + " key="; if (l.compare(0, pre.size(), pre) == 0) { std::string k = l.substr(pre.size()); size_t sp = k.find(' '); g_known.insert(k.substr(0, sp)); } } fclose(f); } }
    S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    std::string dir = evidence.empty() ? "/tmp" : evidence.substr(0, evidence.rfind('/')) + "/replay"; mkdir(dir.c_str(), 0777);

    if (!replay.empty()) {
        FILE *f = fopen(replay.c_str(), "r"); if (!f) { perror("replay"); return 2; }
        char line[1 << 16]; int suite = 0; size_t ci = 0; std::vector<Ctx::Pt> path;
        while (fgets(line, sizeof line, f)) { if (!strncmp(line, "suite ", 6)) suite = atoi(line + 6); else if (!strncmp(line, "case ", 5)) ci = strtoull(line + 5, 0, 10); else if (!strncmp(line, "tier ", 5)) g_thorough = !strncmp(line + 5, "thorough", 8); else if (!strncmp(line, "path", 4)) { char *p = strtok(line + 4, " \n"); while (p) { int a, b, d; if (sscanf(p, "%d/%d/%d", &a, &b, &d) == 3) path.push_back({a, b, d}); p = strtok(nullptr, " \n"); } } }
        fclose(f); std::string msg; const Suite &su = c.suites[suite]; printf("suite %s case %zu: %s\n", su.name.c_str(), ci, su.describe ? (su.cases(g_thorough), su.describe(ci)).c_str() : "");
        int r = runAlone(c, suite, ci, path, 120, msg, true); printf("%s\n%s\n", r == 0 ? "HOLDS" : "VIOLATED", msg.c_str());
        if (r) { printf("VIOLATION property=%s replay=%s\n", c.id.c_str(), replay.c_str()); return 1; } return 0;
    }
    double t0 = nowS(); g_deadline = t0 + (budget > 0 ? budget : g_thorough ? 3000 : 500);
    struct Tot { uint64_t execs = 0, trans = 0, cases = 0, validated = 0, points = 0, maxPath = 0, diverged = 0, total = 0, states = 0, outcomes = 0; bool capped = false; double wall = 0; } T; std::vector<Tot> per;
    bool violated = false; std::string vmsg, vfile; std::set<std::string> knownSeen; uint64_t unconfirmed = 0; double budgetAll = g_deadline - t0;

    for (int si = 0; si < (int)c.suites.size() && !violated; si++) {
        const Suite &su = c.suites[si]; if (!only.empty() && su.name != only) { per.push_back(Tot()); continue; }
        double ts = nowS();
        // each suite may use what is left of the budget
        g_deadline = t0 + budgetAll;
        size_t n = su.cases(g_thorough); S->nextCase = 0; S->stop = 0; S->capped = 0; uint64_t st0 = S->states, oc0 = S->outcomes;
        if (list) { printf("suite %s: %zu cases, bound %d\n", su.name.c_str(), n, su.bound(g_thorough)); if (su.describe) for (size_t i = 0; i < n && i < 50; i++) printf("  %zu %s\n", i, su.describe(i).c_str()); continue; }
        for (int i = 0; i < kMaxSlots; i++) memset((void *)&S->slots[i], 0, sizeof(Slot));
        int nj = std::min<size_t>(std::min(jobs, kMaxSlots), n ? n : 1); if (su.bound(g_thorough) > 0) nj = std::min<int>(nj, std::max<size_t>(1, n));
        std::map<pid_t, int> pids; std::vector<uint64_t> beat(kMaxSlots, 0); std::vector<double> beatAt(kMaxSlots, nowS()); std::vector<int> crashes(kMaxSlots, 0);
        auto spawn = [&](int slot) { fflush(stdout); pid_t p = fork(); if (p == 0) { int nfd = open("/dev/null", O_WRONLY); if (nfd >= 0 && !getenv("MC_STDERR")) dup2(nfd, 2); workerLoop(c, si, slot); _exit(0); } pids[p] = slot; beatAt[slot] = nowS(); };
        for (int i = 0; i < nj; i++) spawn(i);
        auto confirm = [&](int slot, const std::string &what) {
            Slot &sl = S->slots[slot]; std::vector<Ctx::Pt> path(sl.path, sl.path + sl.pathLen); size_t ci = sl.caseIdx; std::string m1, m2;
            int r1 = runAlone(c, si, ci, path, 120, m1, false); if (r1 == 0) return false;
            int r2 = runAlone(c, si, ci, path, 120, m2, false); if (r2 == 0 || r2 != r1) return false;
            violated = true; vmsg = m1; vfile = fmt("%s/%s-%s-%zu.txt", dir.c_str(), c.id.c_str(), su.name.c_str(), ci);
            writeReplay(vfile, c, si, ci, path, m1, g_thorough, su.describe ? su.describe(ci) : ""); (void)what; return true;
        };
        while (!pids.empty()) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                auto it = pids.find(p); if (it == pids.end()) continue; int slot = it->second; pids.erase(it); Slot &sl = S->slots[slot];
                if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { spawn(slot); continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !sl.failed) continue;
                // a failure, a crash, or an abnormal end
                bool isFail = sl.failed; sl.failed = 0;
                if (violated) continue;
                if (confirm(slot, isFail ? sl.msg : "crash")) { S->stop = 1; for (auto &kv : pids) kill(kv.first, SIGKILL); continue; }
                unconfirmed++; fprintf(stderr, "%s: an unreproducible %s in case %zu was not reported: %s\n", c.id.c_str(), isFail ? "failure" : "crash", (size_t)sl.caseIdx, isFail ? sl.msg : "");
                // go on with the next path of the same case
                { std::vector<Ctx::Pt> path(sl.path, sl.path + sl.pathLen); if (advance(path, su.bound(g_thorough)) && ++crashes[slot] < 20) { for (size_t i = 0; i < path.size(); i++) sl.path[i] = path[i]; sl.pathLen = path.size(); sl.cont = 1; } else sl.casesDone++; }
                spawn(slot); continue;
            }
            for (auto it = pids.begin(); it != pids.end(); ++it) {
                int slot = it->second; Slot &sl = S->slots[slot];
                if (sl.beat != beat[slot] || !sl.active) { beat[slot] = sl.beat; beatAt[slot] = nowS(); }
                else if (nowS() - beatAt[slot] > 60) {
                    kill(it->first, SIGKILL); waitpid(it->first, &st, 0); pids.erase(it);
                    if (!violated && confirm(slot, "hang")) { S->stop = 1; for (auto &kv : pids) kill(kv.first, SIGKILL); break; }
                    unconfirmed++; std::vector<Ctx::Pt> path(sl.path, sl.path + sl.pathLen); if (advance(path, su.bound(g_thorough))) { for (size_t i = 0; i < path.size(); i++) sl.path[i] = path[i]; sl.pathLen = path.size(); sl.cont = 1; } else sl.casesDone++;
                    spawn(slot); break;
                }
            }
            if (p <= 0) usleep(3000);
        }
        Tot t; t.total = n; t.wall = nowS() - ts; for (int i = 0; i < kMaxSlots; i++) { Slot &sl = S->slots[i]; t.execs += sl.execs; t.trans += sl.transitions; t.cases += sl.casesDone; t.validated += sl.validated; t.points += sl.points; t.maxPath = std::max<uint64_t>(t.maxPath, sl.maxPath); t.diverged += sl.diverged; for (int k = 0; k < sl.nKnown; k++) knownSeen.insert(sl.knownKeys[k]); }
        t.states = S->states - st0; t.outcomes = S->outcomes - oc0; t.capped = S->capped || t.cases < n; per.push_back(t);
        printf("%s/%s: cases %llu/%zu executions %llu states %llu transitions %llu outcomes %llu bound %d max-choices %llu%s%s %.1fs\n", c.id.c_str(), su.name.c_str(), (unsigned long long)t.cases, n, (unsigned long long)t.execs, (unsigned long long)t.states, (unsigned long long)t.trans, (unsigned long long)t.outcomes, su.bound(g_thorough), (unsigned long long)t.maxPath, t.diverged ? " DIVERGED" : "", t.capped && !violated ? " CAPPED" : "", t.wall);
        T.execs += t.execs; T.trans += t.trans; T.cases += t.cases; T.validated += t.validated; T.capped |= t.capped; T.total += n; T.diverged += t.diverged;
    }
    if (list) return 0;
    T.states = S->states; T.outcomes = S->outcomes;
    for (auto &k : knownSeen) printf("KNOWN-FINDING: property=%s %s\n", c.id.c_str(), k.c_str());
    if (!evidence.empty()) {
        FILE *f = fopen(evidence.c_str(), "w"); if (!f) { perror("evidence"); return 2; }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"model_checking\",\n \"coverage\": {\"states\": %llu, \"transitions\": %llu, \"traces_validated_against_impl\": %llu, \"exhaustive\": %s, \"executions\": %llu, \"distinct_outcomes\": %llu, \"unreproducible\": %llu, \"replay_divergences\": %llu, \"state_table_full\": %s,\n  \"suites\": [", c.id.c_str(), tier.c_str(), getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 1, (unsigned long long)std::max<uint64_t>(T.states, 1), (unsigned long long)std::max<uint64_t>(T.trans, 1), (unsigned long long)T.validated, T.capped || violated ? "false" : "true", (unsigned long long)T.execs, (unsigned long long)T.outcomes, (unsigned long long)unconfirmed, (unsigned long long)T.diverged, S->tableFull ? "true" : "false");
        for (size_t i = 0; i < per.size(); i++) fprintf(f, "%s\n   {\"suite\": \"%s\", \"cases\": %llu, \"cases_total\": %llu, \"executions\": %llu, \"states\": %llu, \"transitions\": %llu, \"outcomes\": %llu, \"deviation_bound\": %d, \"longest_choice_sequence\": %llu, \"capped\": %s, \"wall_s\": %.1f, \"bounds\": \"%s\"}", i ? "," : "", jesc(c.suites[i].name).c_str(), (unsigned long long)per[i].cases, (unsigned long long)per[i].total, (unsigned long long)per[i].execs, (unsigned long long)per[i].states, (unsigned long long)per[i].trans, (unsigned long long)per[i].outcomes, c.suites[i].bound(g_thorough), (unsigned long long)per[i].maxPath, per[i].capped ? "true" : "false", per[i].wall, jesc(c.suites[i].bounds).c_str());
        fprintf(f, "],\n  \"samples\": [");
        bool firstS = true;
        for (auto &su : c.suites) if (su.describe && (only.empty() || su.name == only)) { size_t n = su.cases(g_thorough); std::set<size_t> idx; if (n) { idx.insert(0); idx.insert(n / 3); idx.insert(n - 1); } for (size_t i : idx) { fprintf(f, "%s\n   \"%s: %s\"", firstS ? "" : ",", jesc(su.name).c_str(), jesc(su.describe(i)).c_str()); firstS = false; } }
        fprintf(f, "]},\n \"wall_s\": %.1f,\n \"assumptions\": [", nowS() - t0);
        for (size_t i = 0; i < c.assumptions.size(); i++) fprintf(f, "%s\"%s\"", i ? ", " : "", jesc(c.assumptions[i]).c_str());
        fprintf(f, "],\n \"violations\": %d%s%s%s\n}\n", violated ? 1 : 0, violated ? ",\n \"violation_replay\": \"" : "", violated ? jesc(vfile).c_str() : "", violated ? "\"" : ""); fclose(f);
    }
    if (violated) { printf("%s\nVIOLATION property=%s replay=%s\n", vmsg.c_str(), c.id.c_str(), vfile.c_str()); return 1; }
    return 0;
}
} // namespace mc
