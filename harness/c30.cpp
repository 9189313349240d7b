// C30: log messages reach exactly the destinations and levels that asked for them.  Built without assertions, so that
// misuse that is reported at Error level can be executed.
#include "rp.h"
#include "strictalloc.h"
#include "cat.h"
#include <fstream>
#include <sys/stat.h>
#include <dirent.h>
using namespace rp3d; typedef Logger::Level L; typedef Logger::Category Cat;
static const L LV[] = {L::Error, L::Warning, L::Information}; static const char* LN[] = {"Error", "Warning", "Information"};
static const Cat CT[] = {Cat::PhysicCommon, Cat::World, Cat::Body, Cat::Joint, Cat::Collider}; static const char* CN[] = {"PhysicsCommon", "World", "Body", "Joint", "Collider"};
static const unsigned MASKS[] = {7, 1, 3, 2, 4, 0};      // as Error|Warning|Information, ..., nothing
static bool admits(unsigned mask, int lv) { return unsigned(LV[lv]) <= mask; }
// ---- scratch directory for file destinations
struct Scratch { std::string d; int n = 0; Scratch() { char t[] = "/tmp/c30.XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(9); } d = t; } ~Scratch() { clear(); rmdir(d.c_str()); }
    std::string file() { return d + "/log" + std::to_string(n++) + ".txt"; } void clear() { for (int i = 0; i < n; i++) unlink((d + "/log" + std::to_string(i) + ".txt").c_str()); n = 0; } };
static std::string slurp(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static size_t count(const std::string& s, const std::string& w) { size_t n = 0; for (size_t p = s.find(w); p != std::string::npos; p = s.find(w, p + w.size())) n++; return n; }
// ---- what is logged
struct Msg { int id, lv, cat, txt, wn; std::string text() const { static const char* T[] = {"", "a line\nanother line ", "x <b>&'\" ", "Error Warning Information "}; return "[tag" + std::to_string(id) + "]" + T[txt]; }
    std::string world() const { static const char* W[] = {"", "first world", "w\xc3\xb6rld-2"}; return W[wn]; } std::string file() const { return "source" + std::to_string(id) + ".cpp"; } int line() const { return 4000 + id; } };
static void emit(Logger* l, const Msg& m) { l->log(LV[m.lv], m.world(), CT[m.cat], m.text(), m.file().c_str(), m.line()); }
struct Dest { bool file, html; unsigned mask; std::string path; std::shared_ptr<std::ostringstream> os; std::vector<Msg> want; std::vector<int> none; bool closed = false; std::string final;
    std::string content() const { return file ? slurp(path) : os->str(); } };
static std::string lower(std::string s) { for (auto& c : s) c = (char)tolower(c); return s; }
// a complete log: header, one record per wanted message in order, footer of HTML
static void judge(Run& r, const Dest& d, const std::string& c, bool closed) {
    const char* what = d.file ? "file" : "stream"; r.checked(3);
    for (int id : d.none) if (c.find("[tag" + std::to_string(id) + "]") != std::string::npos) r.fail("unwanted", "%s (level flag %u, %s) received message %d, which it did not ask for:\n%s", what, d.mask, d.html ? "HTML" : "text", id, c.c_str());
    if (c.find("ReactPhysics3D") == std::string::npos || c.find(RP3D_VERSION) == std::string::npos) r.fail("header", "%s: no header:\n%s", what, c.c_str());
    size_t foot = count(c, "</html>"); if (foot != (d.html && closed ? 1u : 0u)) r.fail("footer", "%s: %zu HTML footers, %s:\n%s", what, foot, closed ? "closed" : "open", c.c_str());
    size_t pos = c.find(RP3D_VERSION);
    for (size_t i = 0; i < d.want.size(); i++) { const Msg& m = d.want[i]; std::string tag = "[tag" + std::to_string(m.id) + "]"; r.checked(5);
        if (count(c, tag) != 1) r.fail("once", "%s (level flag %u, %s): message %d (level %s) was delivered %zu times:\n%s", what, d.mask, d.html ? "HTML" : "text", m.id, LN[m.lv], count(c, tag), c.c_str());
        size_t t = c.find(tag); if (t < pos) r.fail("order", "%s: message %d is out of order:\n%s", what, m.id, c.c_str());
        size_t e = t + m.text().size(); if (c.compare(t, m.text().size(), m.text()) != 0) r.fail("text", "%s: text of message %d is not '%s':\n%s", what, m.id, m.text().c_str(), c.c_str());
        size_t f = c.find(m.file(), e), ln = f == std::string::npos ? f : c.find(std::to_string(m.line()), f); if (ln == std::string::npos) r.fail("source", "%s: file and line of message %d missing after it:\n%s", what, m.id, c.c_str());
        std::string pre = c.substr(pos, t - pos); if (i == 0) { size_t q = d.html ? pre.rfind("<hr>") : pre.rfind("-----"); if (q != std::string::npos) pre = pre.substr(q); }
        if (pre.find(m.world()) == std::string::npos) r.fail("world", "%s: message %d lacks its world name '%s':\n%s", what, m.id, m.world().c_str(), c.c_str());
        for (int k = 0; k < 3; k++) if ((pre.find(LN[k]) != std::string::npos) != (k == m.lv)) r.fail("level", "%s: message %d of level %s is labelled:\n%s", what, m.id, LN[m.lv], c.c_str());
        std::string pw = pre; if (m.world().size()) { size_t q = pw.find(m.world()); pw.erase(q, m.world().size()); }
        for (int k = 0; k < 5; k++) { if (k == 1) { if (k == m.cat && !(d.html ? pw.find(">World<") != std::string::npos : pw.find(" World ") != std::string::npos)) r.fail("category", "%s: message %d of category World is labelled:\n%s", what, m.id, c.c_str()); if (k != m.cat && (d.html ? pw.find(">World<") != std::string::npos : pw.find(" World ") != std::string::npos)) r.fail("category", "%s: message %d of category %s is labelled World:\n%s", what, m.id, CN[m.cat], c.c_str()); }
            else if ((pw.find(CN[k]) != std::string::npos) != (k == m.cat)) r.fail("category", "%s: message %d of category %s is labelled:\n%s", what, m.id, CN[m.cat], c.c_str()); }
        if (d.html && (pw.find(lower(LN[m.lv])) == std::string::npos || pw.find(lower(CN[m.cat])) == std::string::npos)) r.fail("style", "%s: record of message %d lacks the style of its level or category:\n%s", what, m.id, c.c_str());
        pos = ln; }
}
struct Log { Run& r; PhysicsCommon& pc; DefaultLogger* l; Scratch& sc; std::vector<Dest> d; int next = 0;
    Log(Run& r, PhysicsCommon& pc, Scratch& sc) : r(r), pc(pc), l(pc.createDefaultLogger()), sc(sc) {}
    void add(bool file, bool html, unsigned mask) { Dest q; q.file = file; q.html = html; q.mask = mask; for (int i = 0; i < next; i++) q.none.push_back(i); auto f = html ? DefaultLogger::Format::HTML : DefaultLogger::Format::Text; MC_LOG(r, "add %s destination %zu, level flag %u, %s", file ? "file" : "stream", d.size(), mask, html ? "HTML" : "text");
        if (file) { q.path = sc.file(); l->addFileDestination(q.path, mask, f); } else { q.os = std::make_shared<std::ostringstream>(); l->addStreamDestination(*q.os, mask, f); } d.push_back(q); r.transition(); }
    void log(int lv, int cat, int txt, int wn) { Msg m{next++, lv, cat, txt, wn}; MC_LOG(r, "log message %d: %s, %s, world '%s', text %d", m.id, LN[lv], CN[cat], m.world().c_str(), txt); emit(l, m); for (auto& q : d) { if (!q.closed && admits(q.mask, lv)) q.want.push_back(m); else q.none.push_back(m.id); } r.transition(); }
    void live() { for (auto& q : d) { std::string c = q.content(); if (q.closed) MC_CHECK(r, c == q.final, "closed", "a removed %s destination has changed:\n%s", q.file ? "file" : "stream", c.c_str()); else if (!q.file) judge(r, q, c, false); } }
    void closeAll() { for (auto& q : d) if (!q.closed) { q.closed = true; q.final = q.content(); judge(r, q, q.final, true); } }
    void remove() { MC_LOG(r, "removeAllDestinations"); l->removeAllDestinations(); closeAll(); r.transition(); }
    void destroy() { MC_LOG(r, "destroyDefaultLogger"); pc.destroyDefaultLogger(l); l = nullptr; closeAll(); r.transition(); }
    uint64_t hash() { mc::Hash h; for (auto& q : d) { h.u(q.mask); h.u(q.html); h.u(q.file); h.u(q.closed); for (auto& m : q.want) { h.u(m.id); h.u(m.lv); h.u(m.cat); h.u(m.txt); h.u(m.wn); } } return h.h; }
};
static void finish(Run& r, StrictAllocator& al) { MC_CHECK(r, al.error.empty(), "memory", "%s", al.error.c_str()); MC_CHECK(r, al.live == 0, "leak", "%ld blocks are not given back", al.live); }
// every set of destinations with every short message sequence
static void destinations(Run& r, int nd) {
    StrictAllocator al; Scratch sc; { PhysicsCommon pc(&al); Log g(r, pc, sc); int last = 0;
        for (int i = 0; i < nd; i++) { int k = nd < 2 || r.thorough || nd == 2 ? r.choose(24) : r.choose(12); if (k < last) r.prune(); last = k; g.add(nd > 2 && !r.thorough ? false : k & 1, k >> 1 & 1, nd > 2 && !r.thorough ? MASKS[(k >> 1) / 2] : MASKS[k >> 2]); }
        int n = nd == 1 && r.thorough ? 3 : 2; int end = r.choose(3);
        for (int i = 0; i < n; i++) { int lv = r.choose(3), cat = nd == 1 && i == 0 ? r.choose(5) : (i * 2 + 1) % 5, txt = nd == 1 && i == 0 ? r.choose(4) : i % 4, wn = nd == 1 && i == 0 ? r.choose(3) : i % 3; g.log(lv, cat, txt, wn); g.live(); }
        r.state(g.hash()); if (end == 0) g.remove(); else if (end == 1) g.destroy(); else { MC_LOG(r, "the PhysicsCommon is destroyed"); }
        if (end == 0) { g.log(0, 1, 0, 0); g.live(); }
        if (end == 2) { pc.~PhysicsCommon(); for (auto& q : g.d) if (!q.closed) { q.closed = true; judge(r, q, q.content(), true); } new (&pc) PhysicsCommon(&al); } }
    finish(r, al);
}
// every message of every category, level, text and world, in sequences of three
static void messages(Run& r) { StrictAllocator al; Scratch sc; { PhysicsCommon pc(&al); Log g(r, pc, sc); g.add(false, false, 7); g.add(false, true, 7); g.add(false, r.flip(), 3); for (int i = 0; i < 2; i++) { int a = r.choose(180); g.log(a % 3, a / 3 % 5, a / 15 % 4, a / 60); } g.live(); r.state(g.hash()); g.destroy(); } finish(r, al); }
// histories of a logger
static void histories(Run& r) { StrictAllocator al; Scratch sc; { PhysicsCommon pc(&al); Log g(r, pc, sc); int depth = r.thorough ? 7 : 5;
        for (int s = 0; s < depth; s++) { switch (r.choose(10)) { case 0: g.add(false, false, 1); break; case 1: g.add(false, true, 7); break; case 2: g.add(false, false, 3); break; case 3: g.add(true, false, 3); break; case 4: g.log(0, s % 5, s % 4, s % 3); break; case 5: g.log(1, s % 5, s % 4, s % 3); break; case 6: g.log(2, s % 5, s % 4, s % 3); break; case 7: g.remove(); break; case 8: g.destroy(); g.l = pc.createDefaultLogger(); break; case 9: s = depth; break; } g.live(); r.state(g.hash()); }
        g.destroy(); g.live(); } finish(r, al); }
// one stream registered several times, and two loggers with the same stream
static void shared(Run& r) { StrictAllocator al; { PhysicsCommon pc(&al); std::ostringstream os; DefaultLogger* l[2] = {pc.createDefaultLogger(), pc.createDefaultLogger()}; unsigned m[3]; int who[3]; for (int i = 0; i < 3; i++) { int k = r.choose(12); m[i] = MASKS[k % 6]; who[i] = i == 2 ? r.choose(2) : 0; l[who[i]]->addStreamDestination(os, m[i], k / 6 ? DefaultLogger::Format::HTML : DefaultLogger::Format::Text); MC_LOG(r, "logger %d: the stream with level flag %u, format %d", who[i], m[i], k / 6); }
        for (int i = 0; i < 2; i++) { Msg q{i, r.choose(3), i, i, i}; int t = r.choose(2); emit(l[t], q); MC_LOG(r, "logger %d: %s", t, LN[q.lv]); size_t want = 0; for (int k = 0; k < 3; k++) want += who[k] == t && admits(m[k], q.lv); size_t got = count(os.str(), "[tag" + std::to_string(i) + "]"); r.transition(); MC_CHECK(r, got == want, "once", "message reached the stream %zu times, %zu registrations asked for it", got, want); }
        mc::Hash h; h.s(std::to_string(os.str().size()).c_str()); for (int i = 0; i < 3; i++) { h.u(m[i]); h.u(who[i]); } r.state(h.h); } finish(r, al); }
// ---- what the library itself logs
struct Rec { L level; std::string world; Cat cat; std::string text; };
struct Recorder : Logger { std::vector<Rec> v; void log(Level l, const std::string& w, Category c, const std::string& m, const char*, int) override { v.push_back({l, w, c, m}); } };
struct Guard { ~Guard() { PhysicsCommon::setLogger(nullptr); } };
static const char* lname(L l) { return l == L::Error ? "Error" : l == L::Warning ? "Warning" : "Information"; }
static const char* OPS[] = {"create a box body", "create a ball body", "destroy a body", "create ball joint", "create fixed joint", "create hinge", "create slider", "destroy joint", "update", "body setters", "collider setters", "remove collider", "world setters", "joint setters", "queries", "create another world", "destroy another world", "move bodies", "types"};
struct Scene { Run& r; StrictAllocator al; PhysicsCommon* pc; PhysicsWorld* w; PhysicsWorld* other = nullptr; std::vector<RigidBody*> b; std::vector<Joint*> j; CollisionShape *box, *ball; Recorder* rec;
    Scene(Run& r) : r(r) {}
    Joint* joint(int t) { RigidBody *a = b[b.size() - 2], *c = b.back(); Vector3 p(0, 0, 0), x(0, 1, 0); Joint* q; if (t == 0) { BallAndSocketJointInfo i(a, c, p); q = w->createJoint(i); } else if (t == 1) { FixedJointInfo i(a, c, p); q = w->createJoint(i); } else if (t == 2) { HingeJointInfo i(a, c, p, x); q = w->createJoint(i); } else { SliderJointInfo i(a, c, p, x); q = w->createJoint(i); } j.push_back(q); return q; }
    // returns the category of the message that must at least be there, or -1
    int op(int k) { MC_LOG(r, "%s", OPS[k]); r.transition();
        switch (k) {
        case 0: case 1: { auto* q = w->createRigidBody(Transform(Vector3((decimal)b.size() * 3, 0, 0), Quaternion::identity())); q->addCollider(k ? ball : box, Transform::identity()); b.push_back(q); return 2; }
        case 2: { if (b.empty()) r.prune(); RigidBody* q = b.back(); for (size_t i = 0; i < j.size();) if (j[i]->getBody1() == q || j[i]->getBody2() == q) j.erase(j.begin() + i); else i++; b.pop_back(); w->destroyRigidBody(q); return 2; }
        case 3: case 4: case 5: case 6: if (b.size() < 2) r.prune(); joint(k - 3); return 3;
        case 7: if (j.empty()) r.prune(); w->destroyJoint(j.back()); j.pop_back(); return 3;
        case 8: w->update(decimal(1.0 / 60)); w->update(decimal(1.0 / 60)); return -1;
        case 9: { if (b.empty()) r.prune(); RigidBody* q = b.back(); q->setMass(2); q->setLinearDamping(decimal(.1)); q->setAngularDamping(decimal(.2)); q->setLocalInertiaTensor(Vector3(1, 2, 3)); q->setLocalCenterOfMass(Vector3(0, 0, 0)); q->updateMassPropertiesFromColliders(); q->updateMassFromColliders(); q->updateLocalCenterOfMassFromColliders(); q->updateLocalInertiaTensorFromColliders(); q->enableGravity(false); q->setIsAllowedToSleep(true); q->setIsSleeping(true); q->setIsSleeping(false); q->setIsActive(false); q->setIsActive(true); q->setLinearVelocity(Vector3(1, 0, 0)); q->setAngularVelocity(Vector3(1, 0, 0)); q->setLinearLockAxisFactor(Vector3(1, 0, 1)); q->setAngularLockAxisFactor(Vector3(1, 0, 1)); q->setIsDebugEnabled(true); q->applyWorldForceAtCenterOfMass(Vector3(1, 1, 1)); return -1; }
        case 10: { if (b.empty()) r.prune(); Collider* c = b.back()->getNbColliders() ? b.back()->getCollider(0) : nullptr; if (!c) r.prune(); c->setCollisionCategoryBits(2); c->setCollideWithMaskBits(3); c->setLocalToBodyTransform(Transform(Vector3(0, decimal(.1), 0), Quaternion::identity())); c->setMaterial(Material(c->getMaterial())); c->getMaterial().setBounciness(decimal(.3)); c->setIsTrigger(true); c->setIsTrigger(false); c->setIsSimulationCollider(true); c->setIsWorldQueryCollider(true); return -1; }
        case 11: { if (b.empty() || !b.back()->getNbColliders()) r.prune(); b.back()->removeCollider(b.back()->getCollider(0)); return -1; }
        case 12: w->setNbIterationsVelocitySolver(7); w->setNbIterationsPositionSolver(4); w->enableSleeping(false); w->enableSleeping(true); w->setGravity(Vector3(0, -5, 0)); w->setIsGravityEnabled(true); w->setSleepLinearVelocity(decimal(.1)); w->setSleepAngularVelocity(decimal(.1)); w->setTimeBeforeSleep(decimal(.5)); w->setContactsPositionCorrectionTechnique(ContactsPositionCorrectionTechnique::SPLIT_IMPULSES); w->setIsDebugRenderingEnabled(true); return -1;
        case 13: { if (j.empty()) r.prune(); if (auto* h = dynamic_cast<HingeJoint*>(j.back())) { h->enableLimit(true); h->setMinAngleLimit(decimal(-1)); h->setMaxAngleLimit(decimal(1)); h->enableMotor(true); h->setMotorSpeed(1); h->setMaxMotorTorque(2); } if (auto* h = dynamic_cast<SliderJoint*>(j.back())) { h->enableLimit(true); h->setMinTranslationLimit(decimal(-1)); h->setMaxTranslationLimit(decimal(1)); h->enableMotor(true); h->setMotorSpeed(1); h->setMaxMotorForce(2); } if (auto* h = dynamic_cast<BallAndSocketJoint*>(j.back())) { h->enableConeLimit(true); h->setConeLimitHalfAngle(decimal(.5)); } return -1; }
        case 14: { struct C : RaycastCallback { decimal notifyRaycastHit(const RaycastInfo&) override { return 1; } } c; w->raycast(Ray(Vector3(0, 9, 0), Vector3(0, -9, 0)), &c); struct O : OverlapCallback { void onOverlap(CallbackData&) override {} } o; w->testOverlap(o); for (uint32 i = 0; i < w->getNbRigidBodies(); i++) w->getRigidBody(i); return -1; }
        case 15: if (other) r.prune(); { PhysicsWorld::WorldSettings s; s.worldName = "the other world"; other = pc->createPhysicsWorld(s); } return -2;
        case 16: if (!other) r.prune(); pc->destroyPhysicsWorld(other); other = nullptr; return -2;
        case 17: if (b.empty()) r.prune(); b.back()->setTransform(Transform(Vector3(decimal(.5), decimal(.25), 0), Quaternion::fromEulerAngles(1, 0, 0))); return -1;
        default: if (b.empty()) r.prune(); b.back()->setType(BodyType::STATIC); b.back()->setType(BodyType::KINEMATIC); b.back()->setType(BodyType::DYNAMIC); return -1; } }
    void judge(size_t from, int k, int must, const std::string& world) { bool there = must < 0;
        for (size_t i = from; i < rec->v.size(); i++) { const Rec& q = rec->v[i]; r.checked(3); MC_LOG(r, "   %s | %s | %s | %s", lname(q.level), q.world.c_str(), Logger::getCategoryName(q.cat).c_str(), q.text.c_str());
            if (q.level != L::Information) r.fail("false-alarm", "%s: a correct call is reported at level %s: %s", OPS[k], lname(q.level), q.text.c_str());
            if (q.cat != Cat::PhysicCommon && q.world != world) r.fail("world-name", "%s: message '%s' carries the world name '%s'; the world is called '%s'", OPS[k], q.text.c_str(), q.world.c_str(), world.c_str());
            for (size_t n = from; n < i; n++) if (rec->v[n].text == q.text && rec->v[n].cat == q.cat && rec->v[n].level == q.level && (k == 15 || k == 16 || k < 8)) r.fail("twice", "%s: '%s' is logged twice", OPS[k], q.text.c_str());
            if (must >= 0 && q.cat == CT[must]) there = true; if (must == -2 && q.cat == Cat::World) there = true; }
        if (must == -2) there = rec->v.size() > from; if (!there) r.fail("silent", "%s is not logged", OPS[k]); }
};
static void library(Run& r) {
    Guard gd; Recorder rec; Scene s(r); s.rec = &rec; PhysicsCommon::setLogger(&rec); PhysicsCommon* pc = new PhysicsCommon(&s.al); s.pc = pc; PhysicsWorld::WorldSettings st; int name = r.choose(3); st.worldName = name == 0 ? "" : name == 1 ? "a world" : "world"; s.w = pc->createPhysicsWorld(st); MC_LOG(r, "world '%s'", s.w->getName().c_str());
    MC_CHECK(r, name == 0 || s.w->getName() == st.worldName, "name", "getName() is '%s'", s.w->getName().c_str()); MC_CHECK(r, !s.w->getName().empty(), "name", "world has no name"); std::string wn = s.w->getName(); s.judge(0, 15, -2, wn);
    s.box = pc->createBoxShape(Vector3(1, 1, 1)); s.ball = pc->createSphereShape(1); int depth = r.thorough ? 4 : 3; int start = r.choose(3);
    for (int i = 0; i < start; i++) s.op(i ? 1 : 0);
    for (int d = 0; d < depth; d++) { int k = r.choose((int)(sizeof OPS / sizeof *OPS)); size_t from = rec.v.size(); int must = s.op(k); s.judge(from, k, must, k == 15 || k == 16 ? "the other world" : wn); mc::Hash h; for (auto& q : rec.v) { h.s(q.text.c_str()); h.u((int)q.cat); } r.state(h.h); }
    if (s.other) pc->destroyPhysicsWorld(s.other); size_t from = rec.v.size(); int end = r.choose(2); if (end) pc->destroyPhysicsWorld(s.w); delete pc;
    for (size_t i = from; i < rec.v.size(); i++) { const Rec& q = rec.v[i]; r.checked(2); for (size_t n = from; n < i; n++) if (rec.v[n].text == q.text && rec.v[n].cat == q.cat) r.fail("twice", "destruction: '%s' is logged twice", q.text.c_str()); if (q.level != L::Information) r.fail("false-alarm", "destruction of a world is reported at level %s: %s", lname(q.level), q.text.c_str()); if (q.cat != Cat::PhysicCommon && q.world != wn) r.fail("world-name", "destruction: message '%s' carries the world name '%s'; the world is called '%s'", q.text.c_str(), q.world.c_str(), wn.c_str()); }
    MC_CHECK(r, rec.v.size() > from, "silent", "destruction of the world is not logged"); finish(r, s.al);
}
// names of worlds that are given none
static void names(Run& r) { Guard gd; Recorder rec; PhysicsCommon::setLogger(&rec); StrictAllocator al; { PhysicsCommon pc(&al); std::vector<PhysicsWorld*> w; std::set<PhysicsWorld*> automatic; int n = 4; for (int i = 0; i < n; i++) { int k = r.choose(5); if (k == 4) { if (w.empty()) r.prune(); pc.destroyPhysicsWorld(w[0]); automatic.erase(w[0]); w.erase(w.begin()); MC_LOG(r, "destroy the first world"); continue; } PhysicsWorld::WorldSettings s; s.worldName = k == 0 ? "" : k == 1 ? "a" : k == 2 ? "world" : "world1"; w.push_back(pc.createPhysicsWorld(s)); if (s.worldName.empty()) automatic.insert(w.back()); MC_LOG(r, "world '%s' is called '%s'", s.worldName.c_str(), w.back()->getName().c_str()); MC_CHECK(r, s.worldName.empty() ? !w.back()->getName().empty() : w.back()->getName() == s.worldName, "name", "world created as '%s' is called '%s'", s.worldName.c_str(), w.back()->getName().c_str());
            if (s.worldName.empty()) for (size_t q = 0; q + 1 < w.size(); q++) if (automatic.count(w[q])) MC_CHECK(r, w[q]->getName() != w.back()->getName(), "same-name", "a world is named '%s' automatically while another one already has that name", w.back()->getName().c_str());
            r.transition(); }
        for (auto* q : w) { size_t from = rec.v.size(); q->createRigidBody(Transform::identity()); for (size_t i = from; i < rec.v.size(); i++) MC_CHECK(r, rec.v[i].world == q->getName(), "world-name", "message of world '%s' carries the name '%s'", q->getName().c_str(), rec.v[i].world.c_str()); mc::Hash h; h.s(q->getName().c_str()); r.state(h.h); } } finish(r, al); }
// which logger is the current one
static void routing(Run& r) { Guard gd; StrictAllocator al, al2; Recorder A, B; std::ostringstream os[2]; { std::unique_ptr<PhysicsCommon> pc(new PhysicsCommon(&al)), pc2(new PhysicsCommon(&al2)); DefaultLogger* d[2] = {pc->createDefaultLogger(), pc2->createDefaultLogger()}; for (int i = 0; i < 2; i++) d[i]->addStreamDestination(os[i], 7, DefaultLogger::Format::Text); PhysicsWorld* w = nullptr; int cur = -1; int depth = r.thorough ? 6 : 5; PhysicsCommon::setLogger(nullptr);
        auto use = [&] { size_t s0 = A.v.size(), s1 = B.v.size(), s2 = os[0].str().size(), s3 = os[1].str().size(); PhysicsCommon* c = pc ? pc.get() : pc2.get(); if (!c) r.prune(); if (c == pc.get()) { if (!w) w = pc->createPhysicsWorld(); w->createRigidBody(Transform::identity()); } else c->createPhysicsWorld(); bool got[4] = {A.v.size() > s0, B.v.size() > s1, os[0].str().size() > s2, os[1].str().size() > s3};
            for (int i = 0; i < 4; i++) MC_CHECK(r, got[i] == (i == cur), "current", "%s received a message although logger %d is the current one, or received none although it is", i == 0 ? "recorder A" : i == 1 ? "recorder B" : i == 2 ? "default logger 1" : "default logger 2", cur); };
        for (int s = 0; s < depth; s++) { int k = r.choose(9); r.transition();
            if (k < 2) { cur = k; PhysicsCommon::setLogger(k ? &B : &A); MC_LOG(r, "setLogger(recorder %c)", 'A' + k); }
            else if (k < 4) { if (!d[k - 2]) r.prune(); cur = k; PhysicsCommon::setLogger(d[k - 2]); MC_LOG(r, "setLogger(default logger %d)", k - 1); }
            else if (k == 4) { cur = -1; PhysicsCommon::setLogger(nullptr); MC_LOG(r, "setLogger(nullptr)"); }
            else if (k == 5) { if (!d[0]) r.prune(); pc->destroyDefaultLogger(d[0]); MC_LOG(r, "destroy default logger 1"); MC_CHECK(r, cur != 2 || PhysicsCommon::getLogger() != d[0], "dangling", "the destroyed logger is still the current one: the next message uses a destroyed object"); d[0] = nullptr; if (cur == 2) cur = -1; }
            else if (k == 6) { if (!pc2) r.prune(); MC_LOG(r, "destroy the second PhysicsCommon with its logger"); pc2.reset(); MC_CHECK(r, cur != 3 || PhysicsCommon::getLogger() != d[1], "dangling", "a logger is still the current one after its PhysicsCommon has been destroyed: the next message uses a destroyed object"); d[1] = nullptr; if (cur == 3) cur = -1; }
            else if (k == 7) { use(); MC_LOG(r, "use the library"); }
            else { if (!pc) r.prune(); MC_LOG(r, "destroy the first PhysicsCommon with its logger"); pc.reset(); w = nullptr; MC_CHECK(r, cur != 2 || PhysicsCommon::getLogger() != d[0], "dangling", "a logger is still the current one after its PhysicsCommon has been destroyed: the next message uses a destroyed object"); d[0] = nullptr; if (cur == 2) cur = -1; }
            Logger* want = cur < 0 ? nullptr : cur == 0 ? (Logger*)&A : cur == 1 ? (Logger*)&B : d[cur - 2]; MC_CHECK(r, PhysicsCommon::getLogger() == want, "getLogger", "getLogger() does not return the current logger");
            mc::Hash h; h.u(cur + 1); h.u(A.v.size()); h.u(B.v.size()); r.state(h.h); }
        if (pc || pc2) use(); PhysicsCommon::setLogger(nullptr); } finish(r, al); finish(r, al2); }
// misuse is reported at Error level, to destinations that ask for errors only; correct calls beside it are not
static void misuse(Run& r) { Guard gd; Recorder rec; std::ostringstream err, none; StrictAllocator* al = new StrictAllocator; PhysicsCommon* pc = new PhysicsCommon(al); DefaultLogger* d = pc->createDefaultLogger(); d->addStreamDestination(err, 1, DefaultLogger::Format::Text); d->addStreamDestination(none, 0, DefaultLogger::Format::Text); size_t e0 = err.str().size(), n0 = none.str().size(); bool leak = false;
    struct Tee : Logger { Logger *a, *b; void log(Level l, const std::string& w, Category c, const std::string& m, const char* f, int n) override { a->log(l, w, c, m, f, n); b->log(l, w, c, m, f, n); } } tee; tee.a = &rec; tee.b = d; PhysicsCommon::setLogger(&tee);
    PhysicsWorld::WorldSettings ws; ws.worldName = "w"; PhysicsWorld* w = pc->createPhysicsWorld(ws); RigidBody* b[3]; for (auto& q : b) q = w->createRigidBody(Transform::identity());
    static const decimal V[] = {decimal(1), decimal(0), decimal(-1), decimal(1e-3), decimal(-1e-3)}; bool bad = false; std::string what; Cat cat = Cat::PhysicCommon; const char* world = "PhysicsCommon"; size_t from = rec.v.size(); size_t least = 1;
    auto V3 = [&] { return Vector3(V[r.choose(5)], V[r.choose(5)], V[r.choose(5)]); };
    switch (r.choose(9)) {
    case 0: { decimal x = V[r.choose(5)]; bad = x <= 0; what = "createSphereShape(" + std::to_string(x) + ")"; pc->createSphereShape(x); break; }
    case 1: { decimal x = V[r.choose(5)], y = V[r.choose(5)]; bad = x <= 0 || y <= 0; least = (x <= 0) + (y <= 0); what = "createCapsuleShape(" + std::to_string(x) + ", " + std::to_string(y) + ")"; pc->createCapsuleShape(x, y); break; }
    case 2: { Vector3 x = V3(); bad = x.x <= 0 || x.y <= 0 || x.z <= 0; what = "createBoxShape" + str(x); pc->createBoxShape(x); break; }
    case 3: { int k = r.choose(3); decimal x = V[r.choose(5)]; bad = x < 0; cat = Cat::Body; world = "w"; what = std::string(k == 0 ? "setMass(" : k == 1 ? "setLinearDamping(" : "setAngularDamping(") + std::to_string(x) + ")"; auto* q = b[r.choose(3)]; if (k == 0) q->setMass(x); else if (k == 1) q->setLinearDamping(x); else q->setAngularDamping(x); break; }
    case 4: { int k = r.choose(6); bool c = r.flip(); bad = k >= 3; cat = Cat::World; world = "w"; what = "getRigidBody(" + std::to_string(k) + ") of 3"; if (k >= 4) r.prune(); if (c) const_cast<const PhysicsWorld*>(w)->getRigidBody(k); else w->getRigidBody(k); break; }
    case 5: case 6: { int k = r.choose(6); decimal nan = std::numeric_limits<decimal>::quiet_NaN(), inf = std::numeric_limits<decimal>::infinity(); Transform t = Transform::identity(); if (k == 1) t.setPosition(Vector3(0, nan, 0)); if (k == 2) t.setPosition(Vector3(0, 0, inf)); if (k == 3) t.setOrientation(Quaternion(0, 0, 0, 0)); if (k == 4) t.setOrientation(Quaternion(nan, 0, 0, 1)); if (k == 5) t.setOrientation(Quaternion(0, 0, 3, 1)); bad = k > 0; leak = bad; world = "w"; bool body = r.flip(); cat = body ? Cat::Body : Cat::Collider; what = std::string(body ? "createRigidBody" : "addCollider") + " with transform kind " + std::to_string(k); CollisionShape* sh = pc->createSphereShape(1); from = rec.v.size(); if (body) w->createRigidBody(t); else b[0]->addCollider(sh, t); break; }
    case 7: { int k = r.choose(6); bool used = r.flip(), gone = r.flip(); bad = used && !gone; leak = bad; what = std::string("destroy shape ") + std::to_string(k) + (used ? gone ? " after its collider was removed" : " that is used by a collider" : " that is not used");
        BoxShape* bx = pc->createBoxShape(Vector3(1, 1, 1)); SphereShape* sp = pc->createSphereShape(1); CapsuleShape* cp = pc->createCapsuleShape(1, 1); std::vector<Message> ms; float vx[] = {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1}; VertexArray va(vx, 12, 4, VertexArray::DataType::VERTEX_FLOAT_TYPE); ConvexMesh* cm = pc->createConvexMesh(va, ms); ConvexMeshShape* cs = pc->createConvexMeshShape(cm); float h[4] = {0, 1, 0, 1}; HeightField* hf = pc->createHeightField(2, 2, h, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, ms); HeightFieldShape* hs = pc->createHeightFieldShape(hf); float tv[] = {0, 0, 0, 1, 0, 0, 0, 0, 1}; int ti[] = {0, 2, 1}; TriangleVertexArray ta(3, tv, 12, 1, ti, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); TriangleMesh* tm = pc->createTriangleMesh(ta, ms); ConcaveMeshShape* ts = pc->createConcaveMeshShape(tm);
        CollisionShape* all[] = {bx, sp, cp, cs, hs, ts}; if (used) { Collider* c = b[1]->addCollider(all[k], Transform::identity()); if (gone) b[1]->removeCollider(c); } from = rec.v.size();
        switch (k) { case 0: pc->destroyBoxShape(bx); break; case 1: pc->destroySphereShape(sp); break; case 2: pc->destroyCapsuleShape(cp); break; case 3: pc->destroyConvexMeshShape(cs); break; case 4: pc->destroyHeightFieldShape(hs); break; default: pc->destroyConcaveMeshShape(ts); } break; }
    default: { int k = r.choose(2); std::vector<Message> ms; float vx[] = {0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0, 1}; static const int good[] = {0, 2, 1, 0, 1, 3, 1, 2, 3, 0, 3, 2}; int idx[12]; memcpy(idx, good, sizeof idx); PolygonVertexArray::PolygonFace f[4]; for (unsigned i = 0; i < 4; i++) { f[i].nbVertices = 3; f[i].indexBase = 3 * i; } bad = k; if (k) { int face = r.choose(4); f[face].nbVertices = 2; what = "createConvexMesh with a face of two vertices"; } else what = "createConvexMesh of a tetrahedron"; PolygonVertexArray pa(4, vx, 12, idx, 4, 4, f, PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE); pc->createConvexMesh(pa, ms); break; }
    }
    MC_LOG(r, "%s", what.c_str()); r.transition(); size_t n = 0; for (size_t i = from; i < rec.v.size(); i++) { auto& q = rec.v[i]; MC_LOG(r, "   %s | %s | %s", lname(q.level), q.world.c_str(), q.text.c_str()); if (q.level == L::Error) { n++; r.checked(2); if (q.cat != cat) r.fail("error-category", "%s: the error has category %s", what.c_str(), Logger::getCategoryName(q.cat).c_str()); if (q.world != world) r.fail("error-world", "%s: the error carries the world name '%s'", what.c_str(), q.world.c_str()); } }
    MC_CHECK(r, (n > 0) == bad && (!bad || n >= least), bad ? "unreported" : "false-alarm", "%s: %zu messages of level Error", what.c_str(), n);
    std::string es = err.str().substr(e0); size_t got = count(es, "Error"), inf = count(es, "Information"); MC_CHECK(r, (got >= n) && (n || es.empty()) && !inf && none.str().size() == n0, "error-destination", "%s: a destination for errors holds '%s'", what.c_str(), es.c_str()); mc::Hash h; h.s(what.c_str()); h.u(n); r.state(h.h);
    PhysicsCommon::setLogger(nullptr); if (!leak) { delete pc; delete al; } }
static std::vector<mc::Scenario> scenarios() { std::vector<mc::Scenario> v;
    v.push_back({"one-destination", [](Run& r) { destinations(r, 1); }, "every destination (stream or file, 6 level flags, 2 formats) x all sequences of 2 (thorough 3) levels x category, text and world name of the first x way it ends", 1, 60});
    v.push_back({"two-destinations", [](Run& r) { destinations(r, 2); }, "every pair of destinations x all sequences of 2 levels x way it ends", 1, 60});
    v.push_back({"three-destinations", [](Run& r) { destinations(r, 3); }, "every triple of streams with level flags 7, 1, 3 (thorough: of all destinations) x all sequences of 2 levels x way it ends", 1, 60});
    v.push_back({"messages", messages, "all pairs of messages over 3 levels x 5 categories x 4 texts x 3 world names, three streams", 1, 60});
    v.push_back({"histories", histories, "all sequences of add (4 kinds), log (3 levels), removeAllDestinations, destroyDefaultLogger; depth 5 (thorough 7)", 1, 60});
    v.push_back({"one-stream", shared, "one stream registered three times at two loggers, all level flags and formats, all pairs of messages", 1, 60});
    v.push_back({"library", library, "all sequences of 3 (thorough 4) of 19 groups of library calls in worlds with and without a name; every message the library logs", 1, 60});
    v.push_back({"names", names, "all sequences of 4 creations of worlds with 4 names or none, and destructions", 1, 60});
    v.push_back({"routing", routing, "all sequences of 5 (thorough 6) of setLogger (4 loggers, none), destruction of loggers and of their PhysicsCommon, and use of the library", 1, 60});
    v.push_back({"misuse", misuse, "all misuses that the API can survive (sizes from -1 to 1, masses, dampings, indices, transforms, used shapes, broken meshes) next to correct calls", 1, 60});
    return v; }
int main(int argc, char** argv) { return mc::main(argc, argv, propertyId("C30"), scenarios(), "level flags Error|Information and Warning|Information are not used: the documentation gives a maximum level; message text is not escaped in HTML: only that it is there is judged"); }
