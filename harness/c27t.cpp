// C27 (schedules): threads that share allocators of the library, or that each own a PhysicsCommon; every
// schedule at the synchronisation operations, with a happens-before race detector (smc.h).
#include "smc.h"
#include <reactphysics3d/memory/MemoryManager.h>
#include <sys/wait.h>
using namespace rp3d;
struct Base : smc::BumpBase { bool shared = true;
    void* allocate(size_t n) override { if (shared) smc::access(&live, 1, true, PC); return smc::BumpBase::allocate(n); }
    void release(void* p, size_t n) override { if (shared) smc::access(&live, 1, true, PC); smc::BumpBase::release(p, n); } };
struct Blk { char* p; size_t n; int id; int kind; };
typedef std::function<void*(int kind, size_t n)> AllocF; typedef std::function<void(int kind, void* p, size_t n)> RelF;
// what a thread does with its blocks counts as accesses of the library's user
static std::vector<std::pair<size_t, size_t>> parts(Blk b) { if (b.n <= 512) return {{0, b.n}}; return {{0, 64}, {b.n - 64, 64}}; }   // large blocks: both ends
static void fill(Blk b) { for (auto& q : parts(b)) { smc::access(b.p + q.first, q.second, true, PC); memset(b.p + q.first, b.id, q.second); } }
static bool intact(Blk b) { for (auto& q : parts(b)) { smc::access(b.p + q.first, q.second, false, PC); for (size_t i = 0; i < q.second; i++) if ((unsigned char)b.p[q.first + i] != (unsigned char)b.id) return false; } return true; }
struct Shared {
    Run& r; std::vector<Blk> mine[smc::MAXT]; std::string bad; int next = 1; AllocF al; RelF re; std::map<char*, size_t> live;
    Shared(Run& r) : r(r) {}
    void alloc(int t, int kind, size_t n) { char* p = (char*)al(kind, n); Blk b{p, n, next++, kind}; if (!p) { bad = "allocate returned null"; return; } if ((uintptr_t)p & 15) bad = "block is not 16-byte aligned";
        for (auto& l : live) if (p < l.first + l.second && l.first < p + n) { bad = "a block of " + std::to_string(n) + " bytes overlaps a live block of " + std::to_string(l.second) + " bytes"; return; }
        live[p] = n; fill(b); mine[t].push_back(b); }
    void release(int t, size_t i) { Blk b = mine[t][i]; mine[t].erase(mine[t].begin() + i); if (!intact(b)) bad = "contents of a live block have changed"; live.erase(b.p); re(b.kind, b.p, b.n); }
};
typedef std::vector<std::pair<int, size_t>> Ops;   // (kind, size); kind -1: release own oldest, -2: release own newest
static std::string text(const Ops& o) { std::string s; for (auto& e : o) s += e.first == -1 ? " release(oldest)" : e.first == -2 ? " release(newest)" : " allocate(" + std::to_string(e.second) + (e.first ? ", kind " + std::to_string(e.first) : "") + ")"; return s; }
// one shared allocator structure, built by make(); every program of `len` operations per thread, every schedule
static void threads(Run& r, int nt, int len, const Ops& alphabet, const Ops& setup, std::function<void(Shared&, std::function<void()>)> with) {
    smc::begin(); Shared s(r);
    std::vector<Ops> prog(nt);
    int lo = 0;
    for (int t = 0; t < nt; t++) { int code = 0; for (int i = 0; i < len; i++) { int k = r.choose((int)alphabet.size()); code = code * alphabet.size() + k; prog[t].push_back(alphabet[k]); } if (t && code < lo) r.prune(); lo = code; MC_LOG(r, "thread %d:%s", t, text(prog[t]).c_str()); }   // threads are alike: programs in order
    with(s, [&] {
        for (int t = 0; t < nt; t++) for (auto& o : setup) s.alloc(t, o.first, o.second);
        std::vector<std::function<void()>> f;
        for (int t = 0; t < nt; t++) f.push_back([&s, t, &prog] { for (auto& o : prog[t]) { if (o.first >= 0) s.alloc(t, o.first, o.second); else if (!s.mine[t].empty()) s.release(t, o.first == -1 ? 0 : s.mine[t].size() - 1); } });
        smc::run(r, f, [&](const std::vector<int>& en, int) { return en[r.choose((int)en.size())]; });
        MC_CHECK(r, s.bad.empty(), "blocks", "%s", s.bad.c_str());
        mc::Hash h; for (int t = 0; t < nt; t++) for (auto& b : s.mine[t]) { h.u(b.p - smc::W->mem); h.u(b.n); } r.state(h.h);
        for (int t = 0; t < nt; t++) while (!s.mine[t].empty()) s.release(t, 0);
        MC_CHECK(r, s.bad.empty(), "blocks", "%s", s.bad.c_str());
    });
}
static void end(Run& r, Base& b) { MC_CHECK(r, b.error.empty(), "base", "%s", b.error.c_str()); MC_CHECK(r, b.live.empty(), "leak", "%zu base blocks are not given back on destruction", b.live.size()); }
static const int REL = -1, REN = -2;
static void heapT(Run& r, int nt, int len) { Base b; size_t init = r.flip() ? 150 : 4000; threads(r, nt, len, {{0, 24}, {0, 200}, {REL, 0}}, {{0, 40}}, [&](Shared& s, std::function<void()> go) { { HeapAllocator h(b, init); s.al = [&](int, size_t n) { return h.allocate(n); }; s.re = [&](int, void* p, size_t n) { h.release(p, n); }; go(); } end(r, b); }); }
static void poolT(Run& r, int nt, int len) { Base b; threads(r, nt, len, {{0, 16}, {0, 2000}, {0, 3000}, {REL, 0}, {REN, 0}}, {{0, 16}}, [&](Shared& s, std::function<void()> go) { { PoolAllocator h(b); s.al = [&](int, size_t n) { return h.allocate(n); }; s.re = [&](int, void* p, size_t n) { h.release(p, n); }; go(); } end(r, b); }); }
static void frameT(Run& r, int nt, int len) { Base b; threads(r, nt, len, {{0, 32}, {0, 1048500}, {REL, 0}, {REN, 0}}, {{0, 32}}, [&](Shared& s, std::function<void()> go) { { SingleFrameAllocator h(b); s.al = [&](int, size_t n) { return h.allocate(n); }; s.re = [&](int, void* p, size_t n) { h.release(p, n); }; go(); } end(r, b); }); }
// the allocators as the library stacks them
static void managerT(Run& r, int nt, int len) { Base b; typedef MemoryManager::AllocationType T; static const T types[] = {T::Pool, T::Heap, T::Frame}; size_t init = 1200000;
    threads(r, nt, len, {{0, 20}, {0, 4000}, {1, 100000}, {1, 40}, {2, 64}, {2, 1048560}, {REL, 0}}, {{0, 20}, {1, 64}}, [&](Shared& s, std::function<void()> go) { { MemoryManager m(&b, init); s.al = [&](int k, size_t n) { return m.allocate(types[k], n); }; s.re = [&](int k, void* p, size_t n) { m.release(types[k], p, n); }; go(); } end(r, b); }); }
// frame resets are ordered with allocations of other threads
static void frameReset(Run& r) { smc::begin(); Base b; int big = r.choose(2); { SingleFrameAllocator f(b); std::string bad;
    for (int i = 0; i < big; i++) { void* p = f.allocate(1048570); f.release(p, 1048570); }
    auto a = [&] { f.reset(); }; auto c = [&] { void* p = f.allocate(100); if ((uintptr_t)p & 15) bad = "unaligned"; void* q = f.allocate(1048560); f.release(q, 1048560); };
    smc::run(r, {a, c}, [&](const std::vector<int>& en, int) { return en[r.choose((int)en.size())]; }); MC_CHECK(r, bad.empty(), "blocks", "%s", bad.c_str()); } end(r, b); }

// ---- two PhysicsCommon objects on two threads; run in a child process, so that the static state of the library is fresh
struct Job { std::string out; };
struct UserBase : MemoryAllocator { Base b; UserBase() { b.shared = false; } void* allocate(size_t n) override { return b.allocate(n); } void release(void* p, size_t n) override { b.release(p, n); } };
struct Listen : EventListener { int n = 0; void onContact(const CallbackData& d) override { n += d.getNbContactPairs(); } };
static void session(int prog, UserBase& base, std::vector<double>& out) {
    PhysicsCommon pc(&base); PhysicsWorld::WorldSettings ws; ws.worldName = "w"; PhysicsWorld* w = pc.createPhysicsWorld(ws); Listen l; w->setEventListener(&l);
    RigidBody* fl = w->createRigidBody(Transform(Vector3(0, -1, 0), Quaternion::identity())); fl->setType(BodyType::STATIC); fl->addCollider(pc.createBoxShape(Vector3(5, 1, 5)), Transform::identity());
    std::vector<RigidBody*> bs; for (int i = 0; i < 2; i++) { auto* b = w->createRigidBody(Transform(Vector3(decimal(i * 0.7), decimal(0.6 + i), 0), Quaternion::identity())); CollisionShape* sh = prog == 0 ? (CollisionShape*)pc.createSphereShape(decimal(.5)) : (CollisionShape*)pc.createBoxShape(Vector3(decimal(.5), decimal(.5), decimal(.5))); b->addCollider(sh, Transform::identity()); b->updateMassPropertiesFromColliders(); bs.push_back(b); }
    if (prog == 1) { BallAndSocketJointInfo i(bs[0], bs[1], Vector3(0, 1, 0)); w->createJoint(i); std::vector<Message> ms; std::vector<float> v = {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1}; VertexArray va(v.data(), 12, 4, VertexArray::DataType::VERTEX_FLOAT_TYPE); ConvexMesh* m = pc.createConvexMesh(va, ms); if (m) fl->addCollider(pc.createConvexMeshShape(m), Transform(Vector3(0, 1, 0), Quaternion::identity())); }
    if (prog == 2) { std::vector<float> h = {0, 0, 0, 0, 1, 0, 0, 0, 0}; std::vector<Message> ms; HeightField* hf = pc.createHeightField(3, 3, h.data(), HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, ms); fl->addCollider(pc.createHeightFieldShape(hf), Transform(Vector3(0, decimal(.2), 0), Quaternion::identity())); pc.createCapsuleShape(1, 1); }
    for (int i = 0; i < 2; i++) w->update(decimal(1.0 / 60));
    for (auto* b : bs) { auto p = b->getTransform().getPosition(); out.push_back(p.x); out.push_back(p.y); out.push_back(p.z); } out.push_back(l.n);
}
static void commons(Run& r) {
    int p0 = r.choose(3), p1 = r.choose(3); int k = r.choose(r.thorough ? 150 : 40); bool first = r.flip(); int k2 = r.choose(2);
    // the first thread runs up to its k-th synchronisation operation (spread over the whole run), then the other one (completely, or up to a point), then the rest
    int at = k < 12 ? k : 12 + (k - 12) * (k - 12) * (r.thorough ? 1 : 6) / 4, back = k2 ? 40 + 17 * k : 1 << 30;
    MC_LOG(r, "programs %d and %d; thread %d first, switch at operation %d, back after %d", p0, p1, first, at, back);
    int fd[2]; if (pipe(fd)) abort(); pid_t pid = fork();
    if (pid == 0) {
        close(fd[0]); r.verbose = false; std::string msg; try {
        smc::begin(); UserBase b0, b1; std::vector<double> o0, o1;
        int phase = 0; uint64_t start = 0;
        smc::run(r, {[&] { session(p0, b0, o0); }, [&] { session(p1, b1, o1); }}, [&](const std::vector<int>& en, int) { uint64_t n = smc::W->points; if (phase == 0 && n >= (uint64_t)at) { phase = 1; start = n; } if (phase == 1 && n - start >= (uint64_t)back) phase = 2; int want = (phase == 1) != first ? 1 : 0; return want; });
        std::vector<double> q0, q1; UserBase c0, c1; session(p0, c0, q0); session(p1, c1, q1);
        if (o0 != q0 || o1 != q1) msg = "results\nthe outcome of a thread depends on the other thread";
        else if (!b0.b.error.empty() || !b0.b.live.empty() || !b1.b.error.empty() || !b1.b.live.empty()) msg = "memory\nmemory is not given back: " + b0.b.error + b1.b.error;
        else { char t[100]; snprintf(t, 100, "ok\n%llu %llu", (unsigned long long)smc::W->points, (unsigned long long)smc::W->accesses); msg = t; }
        } catch (mc::Violation& v) { msg = v.sig + "\n" + v.msg; } catch (...) { msg = "exception\nexception"; }
        if (write(fd[1], msg.data(), msg.size()) < 0) _exit(3); _exit(0);
    }
    close(fd[1]); std::string out; char buf[2000]; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n); close(fd[0]); int st; waitpid(pid, &st, 0);
    size_t nl = out.find('\n'); std::string sig = out.substr(0, nl), txt = nl == std::string::npos ? "" : out.substr(nl + 1);
    if (sig.empty()) r.fail("crash", "the two threads crash (wait status %d)", st);
    if (sig != "ok") r.fail(sig.c_str(), "%s", txt.c_str());
    unsigned long long pts = 0, acc = 0; sscanf(txt.c_str(), "%llu %llu", &pts, &acc); r.transition(pts); r.checked(acc); mc::Hash h; h.u(at); h.u(back); h.u(p0 * 9 + p1); r.state(h.h);
    MC_LOG(r, "%llu synchronisation operations, %llu memory accesses", pts, acc);
}
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"heap-threads", [](Run& r) { heapT(r, 2, 3); }, "one HeapAllocator (2 initial sizes) shared by 2 threads: all programs of 3 operations each, all schedules"});
    sc.push_back({"pool-threads", [](Run& r) { poolT(r, 2, r.thorough ? 4 : 3); }, "one PoolAllocator shared by 2 threads: all programs of 3 (thorough 4) operations each, all schedules"});
    sc.push_back({"frame-threads", [](Run& r) { frameT(r, 2, 3); }, "one SingleFrameAllocator shared by 2 threads: all programs of 3 operations each, all schedules"});
    sc.push_back({"frame-reset", frameReset, "reset() against allocations of another thread, all schedules"});
    sc.push_back({"manager-threads", [](Run& r) { managerT(r, 2, r.thorough ? 3 : 2); }, "a MemoryManager (pool and frame over heap) shared by 2 threads: all programs of 2 (thorough 3) operations each, all schedules"});
    sc.push_back({"heap-3-threads", [](Run& r) { heapT(r, 3, 2); }, "one HeapAllocator shared by 3 threads: all programs of 2 operations each, all schedules"});
    sc.push_back({"pool-3-threads", [](Run& r) { poolT(r, 3, 2); }, "one PoolAllocator shared by 3 threads: all programs of 2 operations each, all schedules"});
    sc.push_back({"two-commons", commons, "two threads, each with its own PhysicsCommon, world, bodies, shapes, meshes, joints and two updates (3 programs each), in a fresh process per execution; switches after the k-th synchronisation operation for 40 (thorough 150) values of k, with and without a switch back", 1, 60});
    return mc::main(argc, argv, propertyId("C27"), sc, "Threads switch at synchronisation operations only; that this is enough follows from race freedom, which is checked with vector clocks on every access made by the instrumented library. The memory model is sequential consistency (accesses that are not ordered by synchronisation are reported).");
}
