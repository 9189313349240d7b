// C30 (schedules): threads that log into the same DefaultLogger; every schedule at the synchronisation operations, with
// the happens-before race detector of smc.h.
#include "smc.h"
#include <sys/wait.h>
using namespace rp3d; typedef Logger::Level L; typedef Logger::Category Cat;
static const L LV[] = {L::Error, L::Warning, L::Information}; static const unsigned MASKS[] = {1, 3, 7};
static const Cat CT[] = {Cat::PhysicCommon, Cat::World, Cat::Body, Cat::Joint, Cat::Collider};
// a stream of the user: writing to it is an access
struct Buf : std::streambuf { std::string s; int overflow(int c) override { smc::access(this, 1, true, PC); if (c != EOF) s.push_back((char)c); return 0; } std::streamsize xsputn(const char* p, std::streamsize n) override { smc::access(this, 1, true, PC); s.append(p, n); return n; } };
static size_t count(const std::string& s, const std::string& w) { size_t n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + w.size())) n++; return n; }
static std::string tag(int t, int i) { return "[thread" + std::to_string(t) + "-" + std::to_string(i) + "]"; }
// records are whole and those of one thread are in order
static void judge(Run& r, const std::string& c, unsigned mask, const std::vector<std::vector<int>>& prog) {
    struct At { size_t p; int t, i; }; std::vector<At> all; for (size_t t = 0; t < prog.size(); t++) { size_t last = 0; for (size_t i = 0; i < prog[t].size(); i++) { size_t n = count(c, tag(t, i)), want = unsigned(LV[prog[t][i]]) <= mask; MC_CHECK(r, n == want, "once", "message %zu of thread %zu was delivered %zu times instead of %zu:\n%s", i, t, n, want, c.c_str()); if (!want) continue; size_t p = c.find(tag(t, i)); MC_CHECK(r, p > last, "order", "messages of thread %zu are out of order:\n%s", t, c.c_str()); last = p; all.push_back({p, (int)t, (int)i}); } }
    std::sort(all.begin(), all.end(), [](const At& a, const At& b) { return a.p < b.p; }); size_t pos = 0;
    for (auto& a : all) { std::string w = "World_of_" + std::to_string(a.t) + "_" + std::to_string(a.i), f = "file_" + std::to_string(a.t) + "_" + std::to_string(a.i); size_t pw = c.find(w, pos), pf = c.find(f, a.p); MC_CHECK(r, pw != std::string::npos && pw < a.p && pf != std::string::npos, "whole", "a record is torn:\n%s", c.c_str()); for (auto& b : all) if (&b != &a) MC_CHECK(r, b.p < pw || b.p > pf, "whole", "records are interleaved:\n%s", c.c_str()); pos = pf; }
}
static void logging(Run& r, int nt, int len, int dests) {
    smc::begin(); smc::BumpBase base; Buf buf[2]; std::ostream* os[2] = {new std::ostream(&buf[0]), new std::ostream(&buf[1])}; unsigned mask[2]; bool html[2];
    std::vector<std::vector<int>> prog(nt); int lo = 0; for (int t = 0; t < nt; t++) { int code = 0; for (int i = 0; i < len; i++) { int k = r.choose(3); code = code * 3 + k; prog[t].push_back(k); } if (t && code < lo) r.prune(); lo = code; }
    { PhysicsCommon pc(&base); DefaultLogger* l = pc.createDefaultLogger(); for (int d = 0; d < dests; d++) { mask[d] = MASKS[r.choose(3)]; html[d] = d ? !html[0] : r.flip(); l->addStreamDestination(*os[d], mask[d], html[d] ? DefaultLogger::Format::HTML : DefaultLogger::Format::Text); MC_LOG(r, "destination %d: level flag %u, %s", d, mask[d], html[d] ? "HTML" : "text"); }
        std::vector<std::function<void()>> f; for (int t = 0; t < nt; t++) { std::string s; for (int k : prog[t]) s += " " + Logger::getLevelName(LV[k]); MC_LOG(r, "thread %d logs%s", t, s.c_str());
            f.push_back([&, t] { for (size_t i = 0; i < prog[t].size(); i++) { std::string w = "World_of_" + std::to_string(t) + "_" + std::to_string(i), fn = "file_" + std::to_string(t) + "_" + std::to_string(i); l->log(LV[prog[t][i]], w, CT[(t + i) % 5], tag(t, i), fn.c_str(), 7); } }); }
        smc::run(r, f, [&](const std::vector<int>& en, int) { return en[r.choose((int)en.size())]; });
        mc::Hash h; for (int d = 0; d < dests; d++) h.s(buf[d].s.c_str()); r.state(h.h);
        for (int d = 0; d < dests; d++) judge(r, buf[d].s, mask[d], prog);
    }
    for (auto* o : os) delete o;
}
// two threads, each with its own PhysicsCommon, logging into the same logger
static void session(int prog, smc::BumpBase& base) { PhysicsCommon pc(&base); PhysicsWorld::WorldSettings ws; ws.worldName = prog == 2 ? "" : "w" + std::to_string(prog); PhysicsWorld* w = pc.createPhysicsWorld(ws); RigidBody* b = w->createRigidBody(Transform::identity()); if (prog) { b->addCollider(pc.createSphereShape(prog == 1 ? 1 : -1 * 0 + 1), Transform::identity()); w->update(decimal(.01)); } if (prog == 2) w->destroyRigidBody(b); }
static void commons(Run& r) {
    int p0 = r.choose(3), p1 = r.choose(3); int at = r.choose(r.thorough ? 400 : 100) * (r.thorough ? 1 : 4); bool first = r.flip(); MC_LOG(r, "programs %d and %d; thread %d first, switch at synchronisation operation %d", p0, p1, first ? 0 : 1, at);
    int fd[2]; if (pipe(fd)) abort(); pid_t pid = fork();
    if (pid == 0) { close(fd[0]); r.verbose = false; std::string msg; try { smc::begin(); smc::BumpBase b, b0, b1; Buf buf; std::ostream os(&buf); { PhysicsCommon pc(&b); DefaultLogger* l = pc.createDefaultLogger(); l->addStreamDestination(os, 7, DefaultLogger::Format::Text); PhysicsCommon::setLogger(l);
            smc::run(r, {[&] { session(p0, b0); }, [&] { session(p1, b1); }}, [&](const std::vector<int>& en, int) { return (smc::W->points >= (uint64_t)at) == first ? 1 : 0; });
            size_t w = count(buf.s, "World:w"), e = count(buf.s, "at line"); bool torn = w != e || !w; size_t p = 0; for (size_t i = 0; i < w && !torn; i++) { size_t a = buf.s.find("World:w", p), z = buf.s.find("at line", p); if (a == std::string::npos || z == std::string::npos || a > z) torn = true; p = z + 1; }
            if (torn) msg = "whole\nrecords are torn or interleaved:\n" + buf.s.substr(0, 1500); PhysicsCommon::setLogger(nullptr); }
            if (msg.empty()) { char t[100]; snprintf(t, 100, "ok\n%llu %llu", (unsigned long long)smc::W->points, (unsigned long long)smc::W->accesses); msg = t; }
        } catch (mc::Violation& v) { msg = v.sig + "\n" + v.msg; } catch (...) { msg = "exception\nexception"; }
        if (write(fd[1], msg.data(), msg.size()) < 0) _exit(3); _exit(0); }
    close(fd[1]); std::string out; char buf[2000]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n); close(fd[0]); int st; waitpid(pid, &st, 0);
    size_t nl = out.find('\n'); std::string sig = out.substr(0, nl), txt = nl == std::string::npos ? "" : out.substr(nl + 1);
    if (sig.empty()) r.fail("crash", "the two threads crash (wait status %d)", st);
    if (sig != "ok") r.fail(sig.c_str(), "%s", txt.c_str());
    unsigned long long pts = 0, acc = 0; sscanf(txt.c_str(), "%llu %llu", &pts, &acc); r.transition(pts); r.checked(acc); mc::Hash h; h.u(at < (int)pts ? at : (int)pts); h.u(first); h.u(p0 * 9 + p1); r.state(h.h); MC_LOG(r, "%llu synchronisation operations, %llu memory accesses", pts, acc);
}
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"threads", [](Run& r) { logging(r, 2, r.thorough ? 4 : 3, 1); }, "2 threads logging 3 (thorough 4) messages each (all levels) into one destination (3 level flags, 2 formats), all schedules"});
    sc.push_back({"two-streams", [](Run& r) { logging(r, 2, 2, 2); }, "2 threads logging 2 messages each into two destinations, all schedules"});
    sc.push_back({"three-threads", [](Run& r) { logging(r, 3, r.thorough ? 2 : 1, 2); }, "3 threads logging 1 (thorough 2) messages each into two destinations, all schedules"});
    sc.push_back({"worlds", commons, "two threads, each with its own PhysicsCommon (3 programs), logging into the same logger, a switch after every 4th (thorough: every) of the first 400 synchronisation operations, in a fresh process per execution", 1, 60});
    return mc::main(argc, argv, propertyId("C30"), sc, "Threads switch at synchronisation operations only; that this is enough follows from race freedom, which is checked with vector clocks on every access made by the instrumented library and on the user's streams.");
}
