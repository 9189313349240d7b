#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <time.h>
#include <fcntl.h>
#include <errno.h>
#include <sys/resource.h>
#include <set>
#include <algorithm>

namespace mc {

struct Pruned {};

static const int QCAP = 4096;
struct Item { uint16_t len; uint16_t choice[MAXC]; };
static const uint64_t TABLE = 1ull << 22;

struct Shared {
    pthread_mutex_t mu;
    volatile int qn;                 // queued prefixes
    volatile int idle;               // workers waiting
    volatile int stop;
    volatile uint64_t stateCount;
    volatile uint64_t prunedCount;
    volatile uint64_t maxDepth;
    Item q[QCAP];
    volatile uint64_t table[TABLE];
};

static Shared* S;
static Slot* gSlot;                 // slot of this worker (or replay)
static char gStderrTail[4096];

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

int Run::choose(int n) {
    int i = (int)taken.size();
    if (i >= MAXC - 1) { fprintf(stderr, "mc: too many choices\n"); _exit(9); }
    int c = i < (int)prefix.size() ? prefix[i] : 0;
    if (n < 1 || c >= n) { fprintf(stderr, "mc: internal error: choice %d of %d at %d\n", c, n, i); _exit(9); }
    taken.push_back((uint16_t)c);
    int L = n;
    if (i < (int)plim.size() && plim[i] && plim[i] < L) L = plim[i];     // later alternatives were given away
    lim.push_back((uint16_t)L);
    if (slot) { slot->choice[i] = (uint16_t)c; slot->limit[i] = (uint16_t)L; slot->len = i + 1; }
    return c;
}
void Run::prune() { throw Pruned(); }
void Run::fail(const char* sig, const char* fmt, ...) {
    Violation v; v.sig = sig;
    char b[MSGLEN]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    v.msg = b; throw v;
}
void Run::note(const char* fmt, ...) {
    char b[1000]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    log.push_back(b);
}
void Run::state(uint64_t h) {
    if (!S) return;
    if (h == 0) h = 1;
    uint64_t i = (h * 0x9E3779B97F4A7C15ull) >> 42;
    if (S->stateCount > TABLE * 3 / 4) return;
    for (uint64_t k = 0; k < TABLE; k++, i = (i + 1) & (TABLE - 1)) {
        uint64_t cur = S->table[i];
        if (cur == h) return;
        if (cur == 0) {
            uint64_t exp = 0;
            if (__atomic_compare_exchange_n(&S->table[i], &exp, h, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) {
                __atomic_fetch_add(&S->stateCount, 1, __ATOMIC_RELAXED); return;
            }
            if (exp == h) return;
        }
    }
}

// ---- running one execution in this process -------------------------------------------------------
enum Outcome { OK, PRUNED, FAILED };
static Outcome runOnce(const Scenario& sc, Run& r, Slot* slot) {
    r.slot = slot; r.scenario = sc.name.c_str();
    if (slot) { slot->len = 0; slot->sig[0] = slot->msg[0] = 0; slot->active = 1; slot->heartbeat++; }
    gSlot = slot;
    Outcome o = OK;
    try { sc.fn(r); }
    catch (Pruned&) { o = PRUNED; }
    catch (Violation& v) {
        o = FAILED;
        if (slot) { snprintf(slot->sig, sizeof slot->sig, "%s", v.sig.c_str()); snprintf(slot->msg, MSGLEN, "%s", v.msg.c_str()); }
    }
    if (slot) slot->active = 0;
    return o;
}

// ---- worker -------------------------------------------------------------------------------------
static void lock() { pthread_mutex_lock(&S->mu); }
static void unlock() { pthread_mutex_unlock(&S->mu); }

// explore the subtree below slot's current position. Entry: r.prefix/limits describe next execution.
static void workerLoop(const Scenario& sc, Slot* slot, int nworkers, bool thorough, bool resume) {
    std::vector<uint16_t> vec, lim; int base = 0; bool have = false;
    if (resume) {    // the previous incarnation died (or failed) on this vector: step past it
        int n = slot->len; base = slot->base;
        vec.assign(slot->choice, slot->choice + n); lim.assign(slot->limit, slot->limit + n);
        if (n < base) { n = 0; vec.clear(); }
        while ((int)vec.size() > base) {
            if (vec.back() + 1 < lim[vec.size() - 1]) { vec.back()++; have = true; break; }
            vec.pop_back();
        }
        lim.resize(vec.size());
    }
    for (;;) {
        if (!have) {
            lock(); S->idle++; 
            for (;;) {
                if (S->stop) { unlock(); _exit(0); }
                if (S->qn > 0) { Item& it = S->q[--S->qn]; vec.assign(it.choice, it.choice + it.len); base = it.len; lim.assign(vec.size(), 0); S->idle--; unlock(); break; }
                if (S->idle >= nworkers) { S->stop = 1; unlock(); _exit(0); }
                unlock(); usleep(500); lock();
            }
            have = true;
        }
        if (S->stop) _exit(0);
        Run r; r.prefix = vec; r.thorough = thorough;
        r.plim = lim; for (int i = 0; i < base && i < (int)r.plim.size(); i++) r.plim[i] = 0;
        slot->base = base;
        Outcome o = runOnce(sc, r, slot);
        slot->execs++; slot->transitions += r.mTransitions; slot->checks += r.mChecks;
        if (o == PRUNED) __atomic_fetch_add(&S->prunedCount, 1, __ATOMIC_RELAXED);
        if (r.taken.size() > S->maxDepth) S->maxDepth = r.taken.size();
        vec = r.taken; lim = r.lim;
        for (size_t i = 0; i < vec.size(); i++) { slot->choice[i] = vec[i]; slot->limit[i] = lim[i]; }
        slot->len = (int)vec.size();
        if (o == FAILED) { slot->active = 2; _exit(3); }
        // give work away when somebody is idle
        if (S->idle > 0 && S->qn < QCAP / 2) {
            int p = -1;
            for (int i = base; i < (int)vec.size(); i++) if (vec[i] + 1 < lim[i]) { p = i; break; }
            if (p >= 0) {
                lock();
                while (lim[p] > vec[p] + 1 && S->qn < QCAP) {
                    Item& it = S->q[S->qn++]; it.len = p + 1;
                    memcpy(it.choice, vec.data(), sizeof(uint16_t) * p); it.choice[p] = (uint16_t)(--lim[p]);
                }
                unlock();
            }
        }
        // next vector
        have = false;
        while ((int)vec.size() > base) {
            if (vec.back() + 1 < lim[vec.size() - 1]) { vec.back()++; have = true; break; }
            vec.pop_back();
        }
        lim.resize(vec.size());
    }
}

// ---- replay in a child -----------------------------------------------------------------------------
struct ReplayResult { bool failed = false, hung = false; std::string sig, msg; std::vector<std::string> log; };
static std::string sigNameOf(int st) {
    if (WIFSIGNALED(st)) return std::string("signal:") + strsignal(WTERMSIG(st));
    return "exit:" + std::to_string(WEXITSTATUS(st));
}
static ReplayResult replay(const Scenario& sc, const std::vector<uint16_t>& v, bool thorough, int timeout, bool toStdout) {
    ReplayResult res;
    Slot* slot = (Slot*)mmap(0, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    int p[2]; if (pipe(p)) return res;
    fflush(stdout); fflush(stderr);
    pid_t pid = fork();
    if (!pid) {
        close(p[0]); rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
        Run r; r.prefix = v; r.verbose = true; r.thorough = thorough;
        // write the log as we go so that it survives a crash
        struct Flush { Run& r; int fd; } fl{r, p[1]};
        (void)fl;
        static Run* R; static int FD; R = &r; FD = p[1];
        auto dump = +[]() { for (auto& l : R->log) { std::string s = l + "\n"; if (write(FD, s.data(), s.size()) < 0) break; } };
        auto onsig = +[](int sg) { for (auto& l : R->log) { if (write(FD, l.data(), l.size()) < 0 || write(FD, "\n", 1) < 0) break; } signal(sg, SIG_DFL); raise(sg); };
        for (int sg : {SIGABRT, SIGSEGV, SIGFPE, SIGILL, SIGBUS}) signal(sg, onsig);
        Outcome o = runOnce(sc, r, slot);
        dump(); _exit(o == FAILED ? 3 : 0);
    }
    close(p[1]); fcntl(p[0], F_SETFL, O_NONBLOCK);
    std::string out; double t0 = now(); int st = 0; bool done = false;
    for (;;) {
        char b[65536]; ssize_t n = read(p[0], b, sizeof b);
        if (n > 0) { out.append(b, n); continue; }
        if (!done && waitpid(pid, &st, WNOHANG) == pid) { done = true; continue; }
        if (done) break;
        if (now() - t0 > timeout) { res.hung = true; kill(pid, SIGKILL); waitpid(pid, &st, 0); done = true; break; }
        usleep(1000);
    }
    close(p[0]);
    size_t a = 0; while (a < out.size()) { size_t e = out.find('\n', a); if (e == std::string::npos) e = out.size(); res.log.push_back(out.substr(a, e - a)); a = e + 1; }
    if (res.hung) { res.failed = true; res.sig = "hang"; res.msg = "the execution did not finish within " + std::to_string(timeout) + " s"; }
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) res.failed = false;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 3) { res.failed = true; res.sig = slot->sig; res.msg = slot->msg; }
    else { res.failed = true; res.sig = slot->sig[0] ? slot->sig : sigNameOf(st); res.msg = slot->msg[0] ? slot->msg : sigNameOf(st); }
    munmap(slot, sizeof(Slot));
    if (toStdout) { for (auto& l : res.log) printf("  %s\n", l.c_str()); }
    return res;
}

static std::string jesc(const std::string& s) {
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
    return o;
}
static std::string vecStr(const std::vector<uint16_t>& v) { std::string s; for (auto c : v) { s += std::to_string(c); s += ' '; } return s; }

struct Known { std::string scenario, sig; std::string text; std::string vec; bool hit = false; };
// a signature that ends with '*' stands for every signature that begins like it (an assertion of a file, however it is written)
static bool sigMatches(const std::string& k, const std::string& sig) { return !k.empty() && k.back() == '*' ? sig.compare(0, k.size() - 1, k, 0, k.size() - 1) == 0 : k == sig; }
static std::vector<Known> loadKnown(const char* property) {
    // known: property=C01 | scenario=name-or-* | sig=... | vector=...(optional) | text
    std::vector<Known> k; const char* root = getenv("VERIF_ROOT"); std::string f = std::string(root ? root : "/verif") + "/known_findings.txt";
    FILE* fp = fopen(f.c_str(), "r"); if (!fp) return k; char line[4000];
    while (fgets(line, sizeof line, fp)) {
        if (strncmp(line, "known:", 6)) continue;
        std::string l(line + 6); while (!l.empty() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
        Known kn; std::string prop; size_t a = 0;
        for (;;) {
            size_t e = l.find(" | ", a); std::string t = l.substr(a, e == std::string::npos ? e : e - a);
            while (!t.empty() && t[0] == ' ') t.erase(0, 1);
            if (!t.compare(0, 9, "property=")) prop = t.substr(9);
            else if (!t.compare(0, 9, "scenario=")) kn.scenario = t.substr(9);
            else if (!t.compare(0, 4, "sig=")) kn.sig = t.substr(4);
            else if (!t.compare(0, 7, "vector=")) kn.vec = t.substr(7);
            else kn.text = t;
            if (e == std::string::npos) break; a = e + 3;
        }
        if (prop == property) k.push_back(kn);
    }
    fclose(fp); return k;
}

static void silenceChild() {
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { dup2(fd, 2); dup2(fd, 1); }
}

// is the name one of (or does it start with one of) a list of comma separated names?
static bool listed(const std::string& list, const std::string& name) {
    for (size_t a = 0; a <= list.size();) { size_t b = list.find(',', a); if (b == std::string::npos) b = list.size(); if (b > a && name.find(list.substr(a, b - a)) == 0) return true; a = b + 1; }
    return false;
}

int main(int argc, char** argv, const char* property, const std::vector<Scenario>& scenarios, const std::string& assumptions) {
    bool thorough = false; std::string rep, only; int workers = 8; double deadline = 0; bool list = false;
    std::string root = getenv("VERIF_ROOT") ? getenv("VERIF_ROOT") : "/verif"; std::string tag;
    std::string evdir = root + "/evidence", outdir = root + "/out";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--thorough") thorough = true;
        else if (a == "--quick") thorough = false;
        else if (a == "--replay" && i + 1 < argc) rep = argv[++i];
        else if (a == "--scenario" && i + 1 < argc) only = argv[++i];
        else if (a == "--workers" && i + 1 < argc) workers = atoi(argv[++i]);
        else if (a == "--deadline" && i + 1 < argc) deadline = atof(argv[++i]);
        else if (a == "--tag" && i + 1 < argc) tag = argv[++i];
        else if (a == "--list") list = true;
    }
    setvbuf(stdout, 0, _IOLBF, 0);
    if (list) { for (auto& s : scenarios) printf("%s: %s\n", s.name.c_str(), s.bounds.c_str()); return 0; }
    if (deadline <= 0) deadline = thorough ? 3000 : 500;
    double t0 = now();
    if (!rep.empty()) {
        FILE* f = fopen(rep.c_str(), "r"); if (!f) { fprintf(stderr, "cannot open %s\n", rep.c_str()); return 2; }
        char line[20000]; std::string sn; std::vector<uint16_t> v;
        while (fgets(line, sizeof line, f)) {
            if (!strncmp(line, "scenario ", 9)) { sn = line + 9; while (!sn.empty() && sn.back() == '\n') sn.pop_back(); }
            if (!strncmp(line, "tier ", 5)) thorough = !strncmp(line + 5, "thorough", 8);
            if (!strncmp(line, "choices ", 8)) { char* p = line + 8; for (;;) { char* e; long x = strtol(p, &e, 10); if (e == p) break; v.push_back((uint16_t)x); p = e; } }
        }
        fclose(f);
        for (auto& s : scenarios) if (s.name == sn) {
            ReplayResult r = replay(s, v, thorough, 120, true);
            if (r.failed) { printf("%s: %s\nVIOLATION property=%s replay=%s\n", r.sig.c_str(), r.msg.c_str(), property, rep.c_str()); return 1; }
            printf("no violation\n"); return 0;
        }
        fprintf(stderr, "scenario %s not found\n", sn.c_str()); return 2;
    }
    mkdir(evdir.c_str(), 0755); mkdir(outdir.c_str(), 0755);
    std::vector<Known> known = loadKnown(property);
    S = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (S == MAP_FAILED) { perror("mmap"); return 2; }
    pthread_mutexattr_t at; pthread_mutexattr_init(&at); pthread_mutexattr_setpshared(&at, PTHREAD_PROCESS_SHARED); pthread_mutex_init(&S->mu, &at);
    Slot* slots = (Slot*)mmap(0, sizeof(Slot) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);

    uint64_t totExec = 0, totTrans = 0, totStates = 0, totChecks = 0, totPruned = 0; bool exhaustive = true; int violations = 0;
    std::string scenJson, samples, violJson; int nsamples = 0;
    std::set<std::string> knownPrinted; bool infra = false;
    for (auto& sc : scenarios) {
        if (!only.empty() && !listed(only, sc.name)) continue;
        if (only.empty() && !thorough && !sc.quick) continue;
        memset(slots, 0, sizeof(Slot) * workers);
        S->qn = 1; S->q[0].len = 0; S->idle = 0; S->stop = 0; S->prunedCount = 0; S->maxDepth = 0;
        if (S->stateCount) { madvise((void*)S->table, sizeof(S->table), MADV_DONTNEED); memset((void*)S->table, 0, sizeof(S->table)); S->stateCount = 0; }
        double ts = now();
        std::vector<pid_t> pids(workers); std::vector<uint64_t> hb(workers, 0); std::vector<double> hbt(workers, now());
        auto spawn = [&](int w, bool resume) {
            fflush(stdout); fflush(stderr);
            pid_t p = fork();
            if (!p) { silenceChild(); workerLoop(sc, &slots[w], workers, thorough, resume); _exit(0); }
            pids[w] = p; hbt[w] = now(); hb[w] = slots[w].heartbeat;
        };
        for (int w = 0; w < workers; w++) spawn(w, false);
        int alive = workers; bool complete = true; int scViol = 0; uint64_t nknown = 0; bool aborting = false;
        std::set<std::string> seenSig;
        while (alive > 0) {
            int st; pid_t p = waitpid(-1, &st, WNOHANG);
            if (p > 0) {
                int w = -1; for (int i = 0; i < workers; i++) if (pids[i] == p) w = i;
                if (w < 0) continue;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { pids[w] = 0; alive--; continue; }
                if (WIFEXITED(st) && WEXITSTATUS(st) == 9) { fprintf(stderr, "mc: internal error in scenario %s vector %s\n", sc.name.c_str(), vecStr(std::vector<uint16_t>(slots[w].choice, slots[w].choice + slots[w].len)).c_str()); infra = true; S->stop = 1; aborting = true; pids[w] = 0; alive--; continue; }
                if (aborting) { pids[w] = 0; alive--; continue; }
                bool hang = false;
                if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
                    if (slots[w].active == 7) hang = true;   // killed by our watchdog
                    else { fprintf(stderr, "mc: worker killed (memory?) in %s\n", sc.name.c_str()); infra = true; S->stop = 1; aborting = true; pids[w] = 0; alive--; continue; }
                }
                // a failing execution
                std::vector<uint16_t> v(slots[w].choice, slots[w].choice + slots[w].len);
                std::string sig = slots[w].sig, msg = slots[w].msg;
                if (hang) { sig = "hang"; msg = "no progress"; }
                else if (sig.empty()) { sig = sigNameOf(st); msg = sig; }
                bool first = seenSig.insert(sig).second;
                bool isKnown = false; Known* kk = nullptr;
                for (auto& k : known) if ((k.scenario == "*" || k.scenario == sc.name) && sigMatches(k.sig, sig) && (k.vec.empty() || k.vec == vecStr(v))) { isKnown = true; kk = &k; }
                ReplayResult r1; bool report = !isKnown;
                if (first || report) {
                    r1 = replay(sc, v, thorough, hang ? 120 : 60, false);
                    if (hang && !r1.failed) { report = false; }            // slow machine, not a hang
                }
                if (isKnown && kk) {
                    nknown++; kk->hit = true;
                    if (knownPrinted.insert(kk->sig + kk->text).second)
                        printf("KNOWN-FINDING: property=%s %s [%s/%s]\n", property, kk->text.c_str(), sc.name.c_str(), sig.c_str());
                }
                if (report) {
                    bool repro = r1.failed;
                    std::string fn = outdir + "/" + property + (tag.empty() ? "" : "-" + tag) + "-" + sc.name + (getenv("MC_CONTINUE") ? "-" + sig : std::string()) + ".replay";
                    FILE* f = fopen(fn.c_str(), "w");
                    if (f) {
                        fprintf(f, "property %s\nscenario %s\ntier %s\nchoices %s\n", property, sc.name.c_str(), thorough ? "thorough" : "quick", vecStr(v).c_str());
                        fprintf(f, "signature %s\nmessage %s\nreproduced_in_fresh_process %s\n", (repro ? r1.sig : sig).c_str(), (repro ? r1.msg : msg).c_str(), repro ? "yes" : "no");
                        for (auto& l : r1.log) fprintf(f, "  | %s\n", l.c_str());
                        fclose(f);
                    }
                    printf("[%s] %s: %s\n", sc.name.c_str(), (repro ? r1.sig : sig).c_str(), (repro ? r1.msg : msg).c_str());
                    if (getenv("MC_CONTINUE")) for (size_t i = 0; i < r1.log.size() && i < 4; i++) printf("   | %s\n", r1.log[i].c_str());
                    printf("VIOLATION property=%s replay=%s\n", property, fn.c_str());
                    if (!violJson.empty()) violJson += ",";
                    violJson += "\"" + jesc(sc.name + ": " + sig + ": " + (repro ? r1.msg : msg)) + "\"";
                    violations++; scViol++;
                    if (!getenv("MC_CONTINUE")) { S->stop = 1; aborting = true; pids[w] = 0; alive--; complete = false; continue; }
                    known.push_back(Known{sc.name, sig, "(already reported)", "", true}); knownPrinted.insert(sig + "(already reported)");
                }
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 3)) slots[w].execs++;
                slots[w].active = 0;
                spawn(w, true);
                continue;
            }
            if (p < 0 && errno == ECHILD) break;
            double t = now();
            if (aborting) { for (int w = 0; w < workers; w++) if (pids[w] && t - hbt[w] > 5) kill(pids[w], SIGKILL); }
            for (int w = 0; w < workers && !aborting; w++) if (pids[w]) {
                if (slots[w].heartbeat != hb[w] || !slots[w].active) { hb[w] = slots[w].heartbeat; hbt[w] = t; }
                else if (t - hbt[w] > sc.hangSeconds) { slots[w].active = 7; kill(pids[w], SIGKILL); hbt[w] = t; }
            }
            if (!S->stop && t - t0 > deadline) { S->stop = 1; complete = false; }
            usleep(2000);
        }
        uint64_t ex = 0, tr = 0, ck = 0; for (int w = 0; w < workers; w++) { ex += slots[w].execs; tr += slots[w].transitions; ck += slots[w].checks; }
        if (!complete) exhaustive = false;
        totExec += ex; totTrans += tr; totStates += S->stateCount; totChecks += ck; totPruned += S->prunedCount;
        double dt = now() - ts;
        printf("[%s] executions=%llu pruned=%llu transitions=%llu states=%llu checks=%llu maxchoices=%llu known=%llu %s %.1fs\n", sc.name.c_str(), (unsigned long long)ex,
               (unsigned long long)S->prunedCount, (unsigned long long)tr, (unsigned long long)S->stateCount, (unsigned long long)ck, (unsigned long long)S->maxDepth, (unsigned long long)nknown, complete ? "complete" : "INCOMPLETE", dt);
        if (!scenJson.empty()) scenJson += ",\n   ";
        char b[600]; snprintf(b, sizeof b, "\"traces\": %llu, \"pruned\": %llu, \"transitions\": %llu, \"states\": %llu, \"oracle_comparisons\": %llu, \"max_choices\": %llu, \"complete\": %s, \"wall_s\": %.2f",
            (unsigned long long)ex, (unsigned long long)S->prunedCount, (unsigned long long)tr, (unsigned long long)S->stateCount, (unsigned long long)ck, (unsigned long long)S->maxDepth, complete ? "true" : "false", dt);
        scenJson += "{\"name\": \"" + jesc(sc.name) + "\", \"bounds\": \"" + jesc(sc.bounds) + "\", " + b + "}";
        // samples: replay two executions verbosely
        if (!violations && nsamples < 12) {
            for (int k = 0; k < 2; k++) {
                std::vector<uint16_t> v; if (k == 1) { int w = 0; for (int i = 0; i < workers; i++) if (slots[i].execs > slots[w].execs) w = i; v.assign(slots[w].choice, slots[w].choice + slots[w].len); }
                ReplayResult r = replay(sc, v, thorough, 60, false); if (r.failed) continue;
                std::string t = sc.name + " choices[" + vecStr(v) + "]"; for (size_t i = 0; i < r.log.size() && i < 14; i++) t += " | " + r.log[i];
                if (t.size() > 1500) t.resize(1500);
                if (nsamples++) samples += ",\n   "; samples += "\"" + jesc(t) + "\"";
            }
        }
        if (infra) break;
        if (violations && !getenv("MC_CONTINUE")) break;
    }
    std::string ev = evdir + "/" + property + (tag.empty() ? "" : "." + tag) + ".json";
    FILE* f = fopen(ev.c_str(), "w");
    if (f) {
        std::string as; { size_t a = 0; while (a < assumptions.size()) { size_t e = assumptions.find('\n', a); if (e == std::string::npos) e = assumptions.size(); if (e > a) { if (!as.empty()) as += ", "; as += "\"" + jesc(assumptions.substr(a, e - a)) + "\""; } a = e + 1; } }
        fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %d,\n \"level\": \"model_checking\",\n \"coverage\": {\n  \"states\": %llu,\n  \"transitions\": %llu,\n  \"traces_validated_against_impl\": %llu,\n  \"pruned\": %llu,\n  \"oracle_comparisons\": %llu,\n  \"exhaustive\": %s,\n  \"scenarios\": [\n   %s],\n  \"samples\": [\n   %s]\n },\n \"assumptions\": [%s],\n \"violations\": %d,\n \"wall_s\": %.2f\n}\n",
            property, thorough ? "thorough" : "quick", atoi(getenv("VERIF_SEED") ? getenv("VERIF_SEED") : "1"), (unsigned long long)totStates, (unsigned long long)totTrans, (unsigned long long)totExec,
            (unsigned long long)totPruned, (unsigned long long)totChecks, exhaustive ? "true" : "false", scenJson.c_str(), samples.c_str(), as.c_str(), violations, now() - t0);
        fclose(f);
    }
    printf("%s: executions=%llu transitions=%llu states=%llu exhaustive=%d violations=%d %.1fs\n", property, (unsigned long long)totExec, (unsigned long long)totTrans, (unsigned long long)totStates, exhaustive, violations, now() - t0);
    if (violations) return 1;
    if (infra) return 2;
    return 0;
}
} // namespace mc

// a failed assert() of the code under test is an observable failure: record where
extern "C" void __assert_fail(const char* expr, const char* file, unsigned line, const char* func) {
    const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
    if (mc::gSlot) {
        snprintf(mc::gSlot->sig, sizeof mc::gSlot->sig, "assert:%s:%s", b, expr);
        snprintf(mc::gSlot->msg, mc::MSGLEN, "assertion failed: %s (%s:%u, %s)", expr, file, line, func);
    }
    fprintf(stderr, "assertion failed: %s (%s:%u, %s)\n", expr, file, line, func);
    abort();
}
