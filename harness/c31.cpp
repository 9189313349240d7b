// Locked axes (C31): a body whose lock factor is 0 on a world axis never moves along it (turns about it), whatever
// contacts, joints, limits, motors, forces and corrections act on it; the free axes keep responding.
#include "joint.h"
typedef rp3d::ContactsPositionCorrectionTechnique CT;
static double cp(const D3& a, int k) { return k == 0 ? a.x : k == 1 ? a.y : a.z; }
static Vector3 mask(int m) { return Vector3(m & 1 ? 0 : 1, m & 2 ? 0 : 1, m & 4 ? 0 : 1); }   // bit set: locked
static D3 freeOf(D3 v, int m) { return {m & 1 ? 0 : v.x, m & 2 ? 0 : v.y, m & 4 ? 0 : v.z}; }
static const char* ML[] = {"none", "x", "y", "xy", "z", "xz", "yz", "xyz"};
struct LB { rp3d::RigidBody* b; int lm = 0, am = 0; D3 c0; Q4 q0; const char* name; bool dyn = true; double off = 0;
    D3 com() const { return d3(b->getTransform() * b->getLocalCenterOfMass()); }
    void lock(int l, int a) { lm = l; am = a; b->setLinearLockAxisFactor(mask(l)); b->setAngularLockAxisFactor(mask(a)); c0 = com(); q0 = q4(b->getTransform().getOrientation()); }
    void check(Run& r, int u) const { D3 v = d3(b->getLinearVelocity()), w = d3(b->getAngularVelocity()), c = com(); Q4 d = q4(b->getTransform().getOrientation()) * inv(q0); D3 dv{d.x, d.y, d.z}; int na = (am & 1) + !!(am & 2) + !!(am & 4); r.checked(6);
        if (!finite(b->getTransform().getPosition())) r.fail("nan", "update %d: %s is nowhere", u, name);
        for (int k = 0; k < 3; k++) { if (lm >> k & 1) { if (!(std::fabs(cp(v, k)) < 1e-8)) r.fail("linear-velocity", "update %d: %s is locked along %c but moves at %g", u, name, 'x' + k, cp(v, k)); if (!(std::fabs(cp(c, k) - cp(c0, k)) < 1e-5)) r.fail("position", "update %d: %s is locked along %c but moved by %g", u, name, 'x' + k, cp(c, k) - cp(c0, k)); }
            if (am >> k & 1) { if (!(std::fabs(cp(w, k)) < 1e-8)) r.fail("angular-velocity", "update %d: %s is locked about %c but turns at %g", u, name, 'x' + k, cp(w, k)); if (na >= 2 && !(std::fabs(cp(dv, k)) < 1e-5)) r.fail("orientation", "update %d: %s is locked about %s but turned: (%g,%g,%g)", u, name, ML[am], dv.x, dv.y, dv.z); } } } };
static rp3d::CollisionShape* shp(rp3d::PhysicsCommon& pc, int k) { return k == 0 ? (rp3d::CollisionShape*)pc.createSphereShape(decimal(.5)) : k == 1 ? (rp3d::CollisionShape*)pc.createBoxShape(Vector3(decimal(.5), decimal(.4), decimal(.6))) : (rp3d::CollisionShape*)pc.createCapsuleShape(decimal(.4), decimal(.5)); }
static const char* SN[] = {"sphere", "box", "capsule"};
static LB mk(rp3d::PhysicsCommon& pc, rp3d::PhysicsWorld* w, const char* n, int shape, D3 p, Quaternion q, double m, double e, double mu, bool com) { LB l; l.name = n; l.b = w->createRigidBody(Transform(v3(p), q)); auto* c = l.b->addCollider(shp(pc, shape), Transform::identity()); c->getMaterial().setBounciness((decimal)e); c->getMaterial().setFrictionCoefficient((decimal)mu); l.b->setMass((decimal)m); l.b->setLocalInertiaTensor(Vector3(decimal(.1 * m), decimal(.2 * m), decimal(.15 * m))); if (com) l.b->setLocalCenterOfMass(Vector3(decimal(.1), decimal(-.05), decimal(.08))); return l; }
struct W31 { PageAllocator al; rp3d::PhysicsCommon pc; rp3d::PhysicsWorld* w; W31(D3 g, bool split) : pc(&al) { rp3d::PhysicsWorld::WorldSettings s; s.gravity = v3(g); s.isSleepingEnabled = false; w = pc.createPhysicsWorld(s); w->setContactsPositionCorrectionTechnique(split ? CT::SPLIT_IMPULSES : CT::BAUMGARTE_CONTACTS); } };

// two free bodies with masks of their own collide
static void pairScene(Run& r) { int s1 = r.choose(3), s2 = r.choose(3); bool order = r.flip(), split = r.flip(); int lm1 = r.choose(8), am1 = r.pick(std::vector<int>{0, 7, 3, 5, 6}), lm2 = r.pick(std::vector<int>{0, 2, 5, 7}), am2 = r.pick(std::vector<int>{7, 0, 1}); int dir = r.choose(3); bool off = r.flip(); double e = r.flip() ? .6 : 0, mu = r.flip() ? .8 : 0; bool com = off && r.thorough && r.flip();
    MC_LOG(r, "%s (locked along %s, about %s) meets %s (along %s, about %s) along %c, %s, %s, restitution %g, friction %g, %s", SN[s1], ML[lm1], ML[am1], SN[s2], ML[lm2], ML[am2], 'x' + dir, order ? "second body created first" : "in order", split ? "split impulses" : "Baumgarte", e, mu, off ? "off centre, deep" : "head-on");
    W31 s({0, 0, 0}, split); D3 ax{double(dir == 0), double(dir == 1), double(dir == 2)}; static const double RX[3][3] = {{.5, .5, .5}, {.5, .4, .6}, {.4, .65, .4}}; double gap = RX[s1][dir] + RX[s2][dir] - (off ? .06 : .005); D3 p2 = ax * gap; if (off) p2 = p2 + D3{dir == 0 ? 0 : .12, dir == 1 ? 0 : .2, dir == 2 ? 0 : -.15}; LB a, b; auto A = [&] { a = mk(s.pc, s.w, "body 1", s1, {0, 0, 0}, off ? axisAngle(1, 1, 0, .1) : Quaternion::identity(), 1, e, mu, com); }; auto B = [&] { b = mk(s.pc, s.w, "body 2", s2, p2, Quaternion::identity(), 2, e, mu, com); }; if (order) { B(); A(); } else { A(); B(); }
    a.lock(lm1, am1); b.lock(lm2, am2); D3 va = ax * 1.5 + D3{.2, -.3, .25}, vb = ax * -1.5 + D3{-.3, .1, 0}; if (!off) { va = ax * 1.5; vb = ax * -1.5; } a.b->setLinearVelocity(v3(freeOf(va, lm1))); b.b->setLinearVelocity(v3(freeOf(vb, lm2))); if (off) { a.b->setAngularVelocity(v3(freeOf({1, -2, 1.5}, am1))); b.b->setAngularVelocity(v3(freeOf({-1, .5, 2}, am2))); }
    int N = r.thorough ? 20 : 8; for (int u = 0; u < N; u++) { D3 v1 = d3(a.b->getLinearVelocity()), v2 = d3(b.b->getLinearVelocity()); s.w->update(decimal(1.0 / 60)); r.transition(); a.check(r, u); b.check(r, u); D3 w1 = d3(a.b->getLinearVelocity()), w2 = d3(b.b->getLinearVelocity()); double sc = len(v1) + 2 * len(v2) + 1;
        for (int k = 0; k < 3; k++) if (!(lm1 >> k & 1) && !(lm2 >> k & 1)) { double d = cp(w1, k) - cp(v1, k) + 2 * (cp(w2, k) - cp(v2, k)); MC_CHECK(r, std::fabs(d) < 2e-5 * sc, "momentum", "update %d: momentum along the free axis %c changes by %g", u, 'x' + k, d); }
        if (u == 0 && !off && !com) { double n0 = cp(v2, dir) - cp(v1, dir), n1 = cp(w2, dir) - cp(w1, dir); if (n0 < -1) { double want = -e * n0; bool any = !(lm1 >> dir & 1) || !(lm2 >> dir & 1); bool single = s1 == 0 || s2 == 0; MC_CHECK(r, !any || std::fabs(n1 - want) < (single && am1 == 7 && am2 == 7 ? ((lm1 | lm2) >> dir & 1 ? .3 : .12) : .6) * std::fabs(n0), "response", "head-on along %c: relative velocity %g becomes %g, restitution %g", 'x' + dir, n0, n1, e); }
            if (s1 == 0 && s2 == 0) for (int k = 0; k < 3; k++) if (k != dir) MC_CHECK(r, std::fabs(cp(w1, k)) + std::fabs(cp(w2, k)) < 1e-3, "sideways", "head-on along %c: bodies leave along %c at %g, %g", 'x' + dir, 'x' + k, cp(w1, k), cp(w2, k)); } }
    mc::Hash h; hashT(h, a.b->getTransform()); hashT(h, b.b->getTransform()); r.state(h.h); MC_CHECK(r, s.al.error.empty(), "allocator", "%s", s.al.error.c_str()); }

// a body with locked axes falls on a floor, a slope, a mesh
static void floorScene(Run& r) { int sh = r.choose(3), fl = r.choose(3); bool order = r.flip(), split = r.flip(); int lm = r.choose(8), am = r.choose(8); double mu = r.flip() ? .7 : 0; bool tilt = r.flip(), com = r.flip(); double e = r.flip() ? .5 : 0;
    MC_LOG(r, "%s locked along %s, about %s on %s, %s first, %s, friction %g, restitution %g, %s, centre of mass off %d", SN[sh], ML[lm], ML[am], fl == 0 ? "a floor" : fl == 1 ? "a slope" : "a height field", order ? "body" : "floor", split ? "split impulses" : "Baumgarte", mu, e, tilt ? "tilted" : "upright", com);
    W31 s({.5, -9.81, .3}, split); LB b; auto B = [&] { b = mk(s.pc, s.w, "the body", sh, {0, .75, 0}, tilt ? axisAngle(1, 2, 2, .5) : Quaternion::identity(), 2, e, mu, com); }; auto F = [&] { rp3d::CollisionShape* f; Transform t(Vector3(0, -1, 0), Quaternion::identity()); if (fl == 2) { float hs[25]; for (int i = 0; i < 25; i++) hs[i] = 0.02f * ((i * 7) % 5); std::vector<rp3d::Message> msg; f = s.pc.createHeightFieldShape(s.pc.createHeightField(5, 5, hs, rp3d::HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, msg), Vector3(2, 1, 2)); t.setPosition(Vector3(0, 0, 0)); } else { f = s.pc.createBoxShape(Vector3(8, 1, 8)); if (fl == 1) t = Transform(Vector3(0, -1, 0), axisAngle(0, 0, 1, .4)); } auto* q = s.w->createRigidBody(t); auto* c = q->addCollider(f, Transform::identity()); c->getMaterial().setFrictionCoefficient((decimal)mu); c->getMaterial().setBounciness(0); q->setType(BodyType::STATIC); };
    if (order) { B(); F(); } else { F(); B(); } b.lock(lm, am); int N = r.thorough ? 90 : 40; double fall = b.com().y; for (int u = 0; u < N; u++) { D3 v0 = d3(b.b->getLinearVelocity()); s.w->update(decimal(1.0 / 60)); r.transition(); b.check(r, u); if (u == 0 && sh == 0 && !tilt && !com) { D3 v = d3(b.b->getLinearVelocity()); D3 g = freeOf({.5, -9.81, .3}, lm); MC_CHECK(r, len(v - v0 - g * (1 / 60.0)) < 1e-4, "fall", "first update: velocity (%g,%g,%g), gravity on the free axes gives (%g,%g,%g)", v.x, v.y, v.z, g.x / 60, g.y / 60, g.z / 60); }
        if (fl == 0 && !(lm & 2)) MC_CHECK(r, b.com().y > 0.2, "sinks", "update %d: height %g", u, b.com().y); }
    (void)fall; mc::Hash h; hashT(h, b.b->getTransform()); r.state(h.h); MC_CHECK(r, s.al.error.empty(), "allocator", "%s", s.al.error.c_str()); }

// every joint, pushed and turned, with limits and motors
static void jointScene(Run& r) { int type = r.choose(4), bt = r.choose(3); bool baum = r.flip(), lim = r.flip(), motor = type >= HINGE && r.flip(); int lm1 = r.pick(std::vector<int>{0, 5, 7, 2}), am1 = r.pick(std::vector<int>{0, 7, 3}), lm2 = r.choose(8), am2 = r.choose(8); int axk = type >= HINGE ? r.choose(2) : 0, orient = r.choose(r.thorough ? 4 : 2) * 3 % 4; if (type == FIXED && lim) r.prune(); if (bt == 1 && (lm1 || am1)) r.prune(); if (bt == 2 && (lm2 || am2)) r.prune(); static const D3 AX[] = {{0, 0, 1}, {1, 2, -1}};
    MC_LOG(r, "%s joint, %s, %s, limits %d, motor %d, body 1 locked along %s, about %s, body 2 along %s, about %s, axis %d, orientations %d", TN[type], PN[bt], baum ? "Baumgarte" : "Gauss-Seidel", lim, motor, ML[lm1], ML[am1], ML[lm2], ML[am2], axk, orient);
    P13 p(bt, 0, 1, 2, orient, orient != 0); J13 j; j.type = type; j.a = p.a; j.b = p.b; j.lim = lim; j.lo = -.2; j.hi = type == BALL ? 1 : .25; j.motor = motor; j.speed = .8; j.maxF = 30; j.create(p.w, type == BALL && lim ? D3{1, -.25, .125} : D3{.8, .3, 0}, AX[axk], false, baum ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false);
    LB a, b; a.b = p.a; a.name = "body 1"; b.b = p.b; b.name = "body 2"; if (p.dyn(p.a)) a.lock(lm1, am1); else a.lock(0, 0); if (p.dyn(p.b)) b.lock(lm2, am2); else b.lock(0, 0); if (p.dyn(p.a)) { p.a->setLinearVelocity(v3(freeOf({.3, -.2, .4}, lm1))); p.a->setAngularVelocity(v3(freeOf({.5, .2, -.6}, am1))); } if (p.dyn(p.b)) { p.b->setLinearVelocity(v3(freeOf({-.2, .5, .1}, lm2))); p.b->setAngularVelocity(v3(freeOf({-.3, .6, .4}, am2))); }
    int N = r.thorough ? 60 : 24; for (int u = 0; u < N; u++) { if (u < N / 2 && p.dyn(p.b)) { p.b->applyWorldForceAtCenterOfMass(Vector3(4, -3, 2)); p.b->applyWorldTorque(Vector3(1, 2, -1)); } if (u < N / 2 && p.dyn(p.a)) { p.a->applyWorldForceAtCenterOfMass(Vector3(-4, 3, -2)); } D3 v1 = d3(p.a->getLinearVelocity()), v2 = d3(p.b->getLinearVelocity()); p.w->update(decimal(1.0 / 60)); r.transition(); a.check(r, u); b.check(r, u); D3 w1 = d3(p.a->getLinearVelocity()), w2 = d3(p.b->getLinearVelocity());
        if (bt == 0) for (int k = 0; k < 3; k++) if (!(lm1 >> k & 1) && !(lm2 >> k & 1)) { double d = cp(w1, k) - cp(v1, k) + 2 * (cp(w2, k) - cp(v2, k)); MC_CHECK(r, std::fabs(d) < 1e-4 * (len(v1) + len(w1) + 2 * len(w2) + 2 * len(v2) + 1), "momentum", "update %d: momentum along the free axis %c changes by %g", u, 'x' + k, d); }
        j.getters(r, "locked axes", 0); }
    mc::Hash h; hashT(h, p.a->getTransform()); hashT(h, p.b->getTransform()); r.state(h.h); MC_CHECK(r, p.al.error.empty(), "allocator", "%s", p.al.error.c_str()); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"pair", pairScene, "two free bodies (sphere, box, capsule each) meeting along 3 axes, head-on or off centre with spin and deep overlap: 8 x 5 masks (linear, angular) for one, 4 x 3 for the other, creation order, both correction techniques, restitution, friction; 8 (thorough 20) updates"});
    s.push_back({"floor", floorScene, "sphere, box, capsule with all 8 x 8 masks on a floor, slope, height field: order, technique, friction, restitution, tilt, off-centre mass; 40 (90) updates under oblique gravity"});
    s.push_back({"joint", jointScene, "4 joint types x dynamic/static pairs x techniques x limits x motors x 4 x 3 masks for body 1, 8 x 8 for body 2, pushed by forces and torques; 24 (60) updates"});
    return mc::main(c, v, propertyId("C31"), s, "lock factors 0 and 1 only; the initial velocity on locked axes is zero; a static or kinematic body is not locked; orientation judged when at least two axes are locked (otherwise its angular velocity)"); }
