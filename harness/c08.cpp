// Sleeping (C08).  Small scenes settle until they sleep, then every sequence of calls disturbs them.  Judged from the
// public observations alone: per-body timers kept by the harness, islands rebuilt from the contact events and joints.
#include "joint.h"
typedef std::pair<void*, void*> BP; static BP bp(void* a, void* b) { return a < b ? BP(a, b) : BP(b, a); }
struct SL : rp3d::EventListener { std::set<BP> touch; void onContact(const CallbackData& d) override { for (rp3d::uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); if (p.getEventType() != ContactPair::EventType::ContactExit) touch.insert(bp(p.getBody1(), p.getBody2())); } } };
struct SB { rp3d::RigidBody* b; int shape; double rad; bool active = true; double t = 0, tl = 0; bool seenAsleep = false; Transform last; bool fresh = true; bool allowed = true; const char* name; };   // shape 0 sphere, 1 box, 2 floor
struct SW { Run& r; PageAllocator al; rp3d::PhysicsCommon pc; rp3d::PhysicsWorld* w; SL sl; std::vector<SB> B; std::vector<std::pair<rp3d::Joint*, BP>> J; double T, lin = 0.02, ang = 3.0 * M_PI / 180; bool enabled = true; const double dt = 1.0 / 60; int u = 0; double g; std::set<BP> lastT;
    SW(Run& r, double g, double T) : r(r), pc(&al), T(T), g(g) { rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, (decimal)-g, 0); s.defaultTimeBeforeSleep = (decimal)T; s.defaultBounciness = 0; w = pc.createPhysicsWorld(s); w->setEventListener(&sl); }
    int sphere(const char* n, double x, double y, double z, BodyType t = BodyType::DYNAMIC) { auto* b = w->createRigidBody(Transform(Vector3((decimal)x, (decimal)y, (decimal)z), Quaternion::identity())); b->addCollider(pc.createSphereShape(decimal(.5)), Transform::identity()); b->updateMassPropertiesFromColliders(); b->setMass(1); b->setType(t); B.push_back(SB{b, 0, .5}); B.back().name = n; B.back().last = b->getTransform(); return (int)B.size() - 1; }
    int box(const char* n, double x, double y, double z, double hx, double hy, double hz, BodyType t) { auto* b = w->createRigidBody(Transform(Vector3((decimal)x, (decimal)y, (decimal)z), Quaternion::identity())); b->addCollider(pc.createBoxShape(Vector3((decimal)hx, (decimal)hy, (decimal)hz)), Transform::identity()); b->updateMassPropertiesFromColliders(); if (t == BodyType::DYNAMIC) b->setMass(1); b->setType(t); B.push_back(SB{b, 1, 0}); B.back().name = n; B.back().last = b->getTransform(); return (int)B.size() - 1; }
    bool mov(const SB& q) const { return q.b && q.active && q.b->getType() != BodyType::STATIC; }
    void step(const char* when) { std::map<void*, Vector3> before; std::map<void*, bool> was; for (auto& q : B) if (q.b) { was[q.b] = q.b->isSleeping(); if (q.seenAsleep && !was[q.b]) q.t = q.tl = 0; before[q.b] = q.b->getTransform().getPosition(); } sl.touch.clear(); w->update((decimal)dt); r.transition(); u++; for (auto& a : B) for (auto& b : B) if (a.b && b.b && a.b < b.b && (!(was[a.b] || a.b->getType() == BodyType::STATIC) || !(was[b.b] || b.b->getType() == BodyType::STATIC))) { if (sl.touch.count(bp(a.b, b.b))) lastT.insert(bp(a.b, b.b)); else lastT.erase(bp(a.b, b.b)); }
        std::vector<int> isl(B.size()); for (size_t i = 0; i < B.size(); i++) isl[i] = (int)i; std::function<int(int)> find = [&](int i) { return isl[i] == i ? i : isl[i] = find(isl[i]); };
        for (size_t i = 0; i < B.size(); i++) for (size_t k = i + 1; k < B.size(); k++) if (mov(B[i]) && mov(B[k])) { bool joined = sl.touch.count(bp(B[i].b, B[k].b)); bool jnt = false; for (auto& j : J) if (j.second == bp(B[i].b, B[k].b)) jnt = true; bool si = B[i].b->isSleeping(), sk = B[k].b->isSleeping();
            if ((joined || jnt) && si != sk) r.fail("split-island", "%s, update %d: %s is %s although %s, which it %s, is %s", when, u, B[i].name, si ? "asleep" : "awake", B[k].name, joined ? "touches" : "is jointed to", sk ? "asleep" : "awake"); if (joined || jnt) isl[find((int)i)] = find((int)k); }
        // an awake moving body that overlaps a sleeping one wakes it (spheres: exact geometry)
        for (auto& a : B) for (auto& b : B) if (a.b && b.b && &a != &b && mov(a) && mov(b) && a.shape == 0 && b.shape == 0 && a.b->getNbColliders() && b.b->getNbColliders() && !was[a.b] && was[b.b] && dist(before[a.b], before[b.b]) < 0.99) { bool dyn = a.b->getType() == BodyType::DYNAMIC || b.b->getType() == BodyType::DYNAMIC; r.checked(); if (dyn && !sl.touch.count(bp(a.b, b.b))) r.fail("no-contact", "%s, update %d: %s (awake) overlaps %s (asleep) but no contact is reported", when, u, a.name, b.name); }
        for (auto& q : B) if (q.b) { bool s = q.b->isSleeping(); r.checked(4); if (q.b->getType() == BodyType::STATIC) { if (s && q.active) r.fail("static-sleeps", "%s, update %d: static %s reports sleeping", when, u, q.name); continue; } if (!q.active) { q.t = q.tl = 0; q.seenAsleep = false; continue; }
            double v = d3len(q.b->getLinearVelocity()), wv = d3len(q.b->getAngularVelocity()); bool wasSleeping = was[q.b];
            if (s) { if (v != 0 || wv != 0) r.fail("sleep-velocity", "%s, update %d: sleeping %s has velocity %g, %g", when, u, q.name, v, wv); if (wasSleeping && !(q.b->getTransform() == q.last)) r.fail("sleep-moves", "%s, update %d: %s moved in its sleep", when, u, q.name);
                if (!wasSleeping) { q.t += dt; q.tl += dt; } }
            else { if (wasSleeping) q.t = q.tl = 0; if (v > lin * 1.0001 || wv > ang * 1.0001) q.t = q.tl = 0; else { q.t += dt; if (enabled) q.tl += dt; if (!q.b->isAllowedToSleep() || v > lin * .9999 || wv > ang * .9999) q.tl = 0; } }   // t: longest possible rest, tl: rest the library must count
            q.last = q.b->getTransform(); q.seenAsleep = s; }
        // nobody sleeps before its time, nor against a permission; everybody sleeps in time
        std::map<int, double> tmin, tlow; std::map<int, bool> allow; for (size_t i = 0; i < B.size(); i++) if (mov(B[i])) { int f = find((int)i); if (!tmin.count(f)) { tmin[f] = tlow[f] = 1e9; allow[f] = true; } tmin[f] = std::min(tmin[f], B[i].t); tlow[f] = std::min(tlow[f], B[i].tl); if (!B[i].b->isAllowedToSleep()) allow[f] = false; }
        for (size_t i = 0; i < B.size(); i++) if (mov(B[i])) { int f = find((int)i); bool s = B[i].b->isSleeping(); r.checked(2); if (s && !was[B[i].b]) { if (!enabled) r.fail("sleep-disabled", "%s, update %d: %s falls asleep although sleeping is disabled", when, u, B[i].name); if (!allow[f]) r.fail("sleep-not-allowed", "%s, update %d: %s falls asleep although its island must not", when, u, B[i].name); if (tmin[f] < T - 1e-4) r.fail("sleep-early", "%s, update %d: %s falls asleep after %g s of rest, sleep time is %g", when, u, B[i].name, tmin[f], T); }
            if (!s && enabled && allow[f] && tlow[f] > T + 3.5 * dt) r.fail("never-sleeps", "%s, update %d: %s is awake although its island rests since %g s (sleep time %g)", when, u, B[i].name, tlow[f], T); } }
    static double d3len(const Vector3& v) { return std::sqrt((double)v.x * v.x + (double)v.y * v.y + (double)v.z * v.z); } };
enum { SC_BALL, SC_STACK, SC_HANG, SC_PAIR, SC_ROW, SC_KIN, SC_FREE, SC_FREE2, SC_STAR, SC_TRI, NSC };
static const char* SCN[] = {"ball on the floor", "two stacked boxes", "ball hanging from a joint", "two jointed bodies without gravity", "row of three touching balls without gravity", "ball on a resting kinematic platform", "single free body", "ball on the floor and a free one far away", "star of jointed bodies around a hub, one of them jointed to a static body that also holds another body", "ball on a concave mesh"};
struct Scene { int fl = -1; std::vector<int> dyn; };
static Scene build(SW& s, int sc) { Scene q; auto join = [&](int a, int b, Vector3 an, int type) { rp3d::Joint* j; if (type == 0) { rp3d::BallAndSocketJointInfo i(s.B[a].b, s.B[b].b, an); j = s.w->createJoint(i); } else { rp3d::FixedJointInfo i(s.B[a].b, s.B[b].b, an); j = s.w->createJoint(i); } s.J.push_back({j, bp(s.B[a].b, s.B[b].b)}); };
    switch (sc) { case SC_FREE2: case SC_BALL: q.fl = s.box("floor", 0, -1, 0, 20, 1, 20, BodyType::STATIC); q.dyn = {s.sphere("ball", 0, 0.4995, 0)}; if (sc == SC_FREE2) q.dyn.push_back(s.sphere("far ball", 8, 0.4995, 3)); break;
    case SC_STACK: q.fl = s.box("floor", 0, -1, 0, 20, 1, 20, BodyType::STATIC); q.dyn = {s.box("lower box", 0, 0.4995, 0, .5, .5, .5, BodyType::DYNAMIC), s.box("upper box", 0, 1.499, 0, .5, .5, .5, BodyType::DYNAMIC)}; break;
    case SC_HANG: q.fl = s.box("support", 0, 3, 0, .3, .3, .3, BodyType::STATIC); q.dyn = {s.sphere("ball", 0, 0, 0)}; join(q.fl, q.dyn[0], Vector3(0, 2, 0), 0); break;
    case SC_PAIR: q.dyn = {s.sphere("left", 0, 0, 0), s.sphere("right", 2, 0, 0)}; join(q.dyn[0], q.dyn[1], Vector3(1, 0, 0), 1); break;
    case SC_ROW: q.dyn = {s.sphere("first", 0, 0, 0), s.sphere("second", .999, 0, 0), s.sphere("third", 1.998, 0, 0)}; break;
    case SC_KIN: q.fl = s.box("platform", 0, -1, 0, 5, 1, 5, BodyType::KINEMATIC); q.dyn = {s.sphere("ball", 0, 0.4995, 0)}; break;
    case SC_STAR: { q.dyn = {s.sphere("hub", 0, 0, 0), s.sphere("east", 2, 0, 0), s.sphere("north", 0, 2, 0), s.sphere("up", 0, 0, 2), s.sphere("west", -2, 0, 0), s.sphere("other", 0, -6, 0)}; int st = s.box("anchor", 0, -3, 0, .3, .3, .3, BodyType::STATIC); join(q.dyn[2], q.dyn[0], Vector3(0, 1, 0), 1); join(st, q.dyn[0], Vector3(0, -2, 0), 0); join(q.dyn[0], q.dyn[1], Vector3(1, 0, 0), 0); join(q.dyn[5], st, Vector3(0, -4, 0), 1); join(q.dyn[0], q.dyn[3], Vector3(0, 0, 1), 1); join(q.dyn[4], q.dyn[0], Vector3(-1, 0, 0), 0); break; }
    case SC_FREE: q.dyn = {s.sphere("free", 0, 0, 0)}; break; default: break; }
    return q; }
static bool grav(int sc) { return sc == SC_BALL || sc == SC_STACK || sc == SC_HANG || sc == SC_KIN || sc == SC_FREE2; }
static const char* ON[] = {"applyWorldForceAtCenterOfMass", "applyLocalForceAtCenterOfMass", "applyWorldForceAtWorldPosition", "applyLocalForceAtLocalPosition", "applyWorldForceAtLocalPosition", "applyLocalForceAtWorldPosition", "applyWorldTorque", "applyLocalTorque", "setLinearVelocity", "setAngularVelocity", "setTransform", "setIsAllowedToSleep(false)", "setIsAllowedToSleep(true)", "enableSleeping(false)", "enableSleeping(true)", "remove the support's collider", "destroy the support", "deactivate the support", "destroy the joint", "throw a ball at it", "setIsSleeping(false)", "setIsSleeping(true)", "longer sleep time", "shorter sleep time", "lower sleep velocities", "setLocalToBodyTransform of its collider", "nothing", "throw a kinematic ball at it", "set static and back", "destroy the body", "deactivate and activate the body", "joint to a new moving body", "disable sleeping, push, stop, enable sleeping", "allow no sleep, push, stop, allow sleep"};
static const int NOPS = 34;
static void disturb(SW& s, Scene& q, int sc, int op, int k, Run& r, std::vector<int>& must, int& balls) { (void)sc; SB& d = s.B[q.dyn[k]]; if (op != 16 && op != 15 && op != 17 && !d.b) r.prune(); bool was = d.b ? d.b->isSleeping() : false; bool isStatic = d.b && d.b->getType() == BodyType::STATIC; if (isStatic) r.prune(); (void)isStatic; bool wakes = true; auto* b = d.b; Vector3 F(3, 2, 1); Vector3 c = b ? b->getTransform().getPosition() : Vector3(0, 0, 0); auto gone = [&](void* x) { for (size_t i = 0; i < s.J.size();) if (s.J[i].second.first == x || s.J[i].second.second == x) s.J.erase(s.J.begin() + i); else i++; };
    auto support = [&](std::function<void(SB&)> f) { if (q.fl < 0) r.prune(); SB& fl = s.B[q.fl]; if (!fl.b) r.prune(); bool carries = fl.active && fl.b->getNbColliders() > 0; for (int i : q.dyn) { SB& e = s.B[i]; if (carries && e.b && e.active && e.b->getType() == BodyType::DYNAMIC && (s.sl.touch.count(bp(e.b, fl.b)) || (e.b->isSleeping() && s.lastT.count(bp(e.b, fl.b)) && e.b->getTransform().getPosition().y < 0.4999)) && sc != SC_HANG && (sc != SC_STACK || i == q.dyn[0])) must.push_back(i); } f(fl); wakes = false; };
    switch (op) { case 0: b->applyWorldForceAtCenterOfMass(F); break; case 1: b->applyLocalForceAtCenterOfMass(F); break; case 2: b->applyWorldForceAtWorldPosition(F, c + Vector3(0, decimal(.3), 0)); break; case 3: b->applyLocalForceAtLocalPosition(F, Vector3(0, 0, decimal(.3))); break; case 4: b->applyWorldForceAtLocalPosition(F, Vector3(decimal(.3), 0, 0)); break; case 5: b->applyLocalForceAtWorldPosition(F, c); break; case 6: b->applyWorldTorque(F); break; case 7: b->applyLocalTorque(F); break;
    case 8: b->setLinearVelocity(Vector3(1, decimal(.5), 0)); break; case 9: b->setAngularVelocity(Vector3(0, decimal(.8), decimal(.3))); break; case 10: { Transform t = b->getTransform(); b->setTransform(Transform(t.getPosition() + Vector3(0, 2, 0), t.getOrientation())); break; }
    case 11: b->setIsAllowedToSleep(false); break; case 12: if (b->isAllowedToSleep()) r.prune(); b->setIsAllowedToSleep(true); wakes = false; break; case 13: if (!s.enabled) r.prune(); s.w->enableSleeping(false); s.enabled = false; for (auto& e : s.B) e.tl = 0; for (int i : q.dyn) if (s.mov(s.B[i])) must.push_back(i); break; case 14: if (s.enabled) r.prune(); s.w->enableSleeping(true); s.enabled = true; wakes = false; break;
    case 15: support([&](SB& f) { if (f.b->getNbColliders() == 0 || sc == SC_HANG) r.prune(); f.b->removeCollider(f.b->getCollider(0)); f.shape = 1; }); break; case 16: if (sc == SC_HANG && !s.J.empty()) must.push_back(q.dyn[0]); support([&](SB& f) { gone(f.b); s.w->destroyRigidBody(f.b); f.b = nullptr; }); if (sc == SC_HANG && !s.B[q.dyn[0]].b) must.clear(); break; case 17: if (sc == SC_HANG) r.prune(); support([&](SB& f) { if (!f.active) r.prune(); f.b->setIsActive(false); f.active = false; }); break;
    case 18: { if (s.J.empty()) r.prune(); auto j = s.J[0]; auto *p = j.first->getBody1(), *p2 = j.first->getBody2(); s.w->destroyJoint(j.first); s.J.erase(s.J.begin()); for (size_t i = 0; i < s.B.size(); i++) if ((s.B[i].b == p || s.B[i].b == p2) && s.mov(s.B[i])) must.push_back((int)i); wakes = false; break; }
    case 19: case 27: { if (balls >= 2 || d.shape != 0) r.prune(); int i = s.sphere(op == 19 ? "thrown ball" : "kinematic ball", c.x, c.y + 1.05, c.z, op == 19 ? BodyType::DYNAMIC : BodyType::KINEMATIC); s.B[i].b->setLinearVelocity(Vector3(0, -6, 0)); balls++; wakes = false; break; }
    case 20: b->setIsSleeping(false); break; case 21: b->setIsSleeping(true); wakes = false; break; case 22: s.T = 0.4; s.w->setTimeBeforeSleep(decimal(.4)); wakes = false; break; case 23: s.T = 0.04; s.w->setTimeBeforeSleep(decimal(.04)); wakes = false; break; case 24: s.lin = .002; s.ang = .005; s.w->setSleepLinearVelocity(decimal(.002)); s.w->setSleepAngularVelocity(decimal(.005)); wakes = false; break;
    case 25: if (b->getNbColliders() == 0) r.prune(); b->getCollider(0)->setLocalToBodyTransform(Transform::identity()); break; case 26: wakes = false; break;
    case 28: b->setType(BodyType::STATIC); b->setType(BodyType::DYNAMIC); d.tl = 0; break; case 29: { std::vector<int> near; for (int i : q.dyn) if (s.B[i].b && s.B[i].b != b && s.B[i].b->getType() == BodyType::DYNAMIC) { bool jn = false; for (auto& j : s.J) if (j.second == bp(b, s.B[i].b)) jn = true; if (jn || (was && s.B[i].b->isSleeping() && s.lastT.count(bp(b, s.B[i].b)) && dist(s.B[i].b->getTransform().getPosition(), c) < 1.0)) near.push_back(i); } gone(b); s.w->destroyRigidBody(b); d.b = nullptr; for (int i : near) must.push_back(i); wakes = false; break; }
    case 30: b->setIsActive(false); b->setIsActive(true); d.t = d.tl = 0; break; case 31: { if (balls >= 2) r.prune(); int i = s.sphere("joined ball", c.x, c.y + 3, c.z + 2); s.B[i].b->setLinearVelocity(Vector3(0, 0, 1)); rp3d::BallAndSocketJointInfo inf(b, s.B[i].b, c + Vector3(0, decimal(1.5), 1)); auto* j = s.w->createJoint(inf); s.J.push_back({j, bp(b, s.B[i].b)}); balls++; wakes = false; break; }
    case 32: case 33: if (op == 32) { if (!s.enabled) r.prune(); s.w->enableSleeping(false); s.enabled = false; for (auto& e : s.B) e.tl = 0; } else b->setIsAllowedToSleep(false); b->setLinearVelocity(Vector3(0, 1, 0)); s.step(ON[op]); s.step(ON[op]); b->setLinearVelocity(Vector3(0, 0, 0)); b->setAngularVelocity(Vector3(0, 0, 0)); if (op == 32) { s.w->enableSleeping(true); s.enabled = true; } else b->setIsAllowedToSleep(true); break; }
    if (wakes) { MC_CHECK(r, !b->isSleeping(), "not-woken", "%s does not wake %s", ON[op], d.name); d.t = was ? 0 : d.t; (void)must; }
    for (auto& e : s.B) if (e.b && e.active && e.b->getType() != BodyType::STATIC && e.b->isSleeping() == false && op == 21 && e.b == b) r.fail("put-to-sleep", "setIsSleeping(true) leaves %s awake", d.name);
    if (op == 21) d.last = b->getTransform();
    // what the call does to the next update
    if (op <= 5 && sc == SC_FREE && !balls) { bool had = d3(b->getLinearVelocity()).x != 0; double v0 = SW::d3len(b->getLinearVelocity()); s.step(ON[op]); if (!had && v0 == 0) { double v = SW::d3len(b->getLinearVelocity()), want = std::sqrt(14.0) / 60; MC_CHECK(r, std::fabs(v - want) < 1e-3, "force-lost", "%s on the resting body: speed %g after the update, expected %g", ON[op], v, want); } }
    if ((op == 6 || op == 7) && sc == SC_FREE && !balls && SW::d3len(b->getAngularVelocity()) == 0) { s.step(ON[op]); double v = SW::d3len(b->getAngularVelocity()), want = std::sqrt(14.0) / 60 / b->getLocalInertiaTensor().x; MC_CHECK(r, std::fabs(v - want) < 1e-3 * (1 + want), "torque-lost", "%s on the resting body: angular speed %g after the update, expected %g", ON[op], v, want); }
}
static void sleepScene(Run& r) { int sc = r.choose(SC_TRI); bool settle = r.flip(); SW s(r, grav(sc) ? 9.81 : 0, 0.1); int allow = r.choose(2); MC_LOG(r, "%s, %s", SCN[sc], settle ? "settled" : "fresh"); Scene q = build(s, sc); if (allow) { MC_LOG(r, "last body is not allowed to sleep"); s.B[q.dyn.back()].b->setIsAllowedToSleep(false); }
    int balls = 0; int N = settle ? 16 : 2; for (int i = 0; i < N; i++) s.step("settling"); if (settle && !allow) for (int i : q.dyn) MC_CHECK(r, s.B[i].b->isSleeping(), "never-sleeps", "resting %s is not asleep after %d updates (sleep time 0.1 s)", s.B[i].name, N);
    int depth = r.thorough ? 3 : 2; for (int st = 0; st < depth; st++) { int op = r.choose(NOPS); int k = (op == 13 || op == 14 || op == 15 || op == 16 || op == 17 || op == 18 || (op >= 22 && op <= 24) || op == 26) ? 0 : sc == SC_STAR ? r.pick(std::vector<int>{0, 4, 5}) : r.choose((int)q.dyn.size()); if (sc == SC_STAR && st && !r.thorough && (k == 5 || op < 8)) r.prune(); MC_LOG(r, "%s (%s)", ON[op], s.B[q.dyn[k]].name); std::vector<int> must; std::vector<double> v0; disturb(s, q, sc, op, k, r, must, balls);
        for (int i : must) if (s.B[i].b) MC_CHECK(r, !s.B[i].b->isSleeping() || s.B[i].b->getType() == BodyType::STATIC, "not-woken", "%s does not wake %s", ON[op], s.B[i].name);
        std::map<int, double> y; for (int i : must) if (s.B[i].b) y[i] = s.B[i].b->getLinearVelocity().y; int gap = r.thorough ? (st == 0 ? 1 + 12 * r.choose(2) : 3) : (st == 0 ? 1 + 12 * r.choose(2) : 14); for (int i = 0; i < gap; i++) { s.step(ON[op]); if (i == 0 && op >= 15 && op <= 17 && grav(sc)) for (int b : must) if (s.B[b].b && s.B[b].b->getType() == BodyType::DYNAMIC && s.B[b].b->isActive()) MC_CHECK(r, s.B[b].b->getLinearVelocity().y < y[b] - 0.1 || sc == SC_STACK || balls, "floats", "%s: %s does not fall", ON[op], s.B[b].name); } }
    for (int i = 0; i < 12; i++) s.step("end"); mc::Hash h; for (auto& q : s.B) if (q.b) { hashT(h, q.b->getTransform()); h.u(q.b->isSleeping()); } r.state(h.h); MC_CHECK(r, s.al.error.empty(), "allocator", "%s", s.al.error.c_str()); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"sleep", sleepScene, "9 scenes (ball on floor, stack, hanging body, jointed pair, row of touching balls, kinematic platform, free body, two separate bodies, star of six joints with a static anchor that must not merge islands) x settled/fresh x one body not allowed to sleep or all allowed; every sequence of 2 (thorough 3) calls out of 34 on any body with 1 or 13 updates in between; every update judged against timers and islands kept by the harness"});
    return mc::main(c, v, propertyId("C08"), s, "islands are rebuilt from the reported contacts and the joints; a body whose island rests for the sleep time plus 3.5 steps is required to sleep"); }
