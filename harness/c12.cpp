// Free rigid bodies: every sequence of force, torque, velocity, property and type calls and updates against an
// independent double-precision integrator (C12).
#include "rp.h"
#include "geo.h"
using rp3d::BodyType; using geo::V; using geo::M;
struct Q4 { double x, y, z, w; };
static M rot(const Q4& q) { return geo::rotOf(q.x, q.y, q.z, q.w); }
struct Ref { V com, v, w, F, T, I{1, 1, 1}, comL, ll{1, 1, 1}, al{1, 1, 1}; Q4 q{0, 0, 0, 1}; double m = 1, ld = 0, ad = 0; bool grav = true, active = true; BodyType type = BodyType::DYNAMIC;
    V pos() const { return com - rot(q) * comL; }
    void setPos(const V& p) { com = p + rot(q) * comL; }
    static V mul(const V& a, const V& b) { return V(a.x * b.x, a.y * b.y, a.z * b.z); }
    void step(double dt, bool wg, const V& g) {
        if (type == BodyType::STATIC || !active) { F = T = V(); return; }
        double im = type == BodyType::DYNAMIC && m > 0 ? 1 / m : 0; V iI = type == BodyType::DYNAMIC ? V(I.x ? 1 / I.x : 0, I.y ? 1 / I.y : 0, I.z ? 1 / I.z : 0) : V(); M R = rot(q);
        v = v + mul(ll, F) * (dt * im); if (wg && grav) v = v + mul(ll, g) * (dt * im * m);
        w = w + mul(al, R * mul(iI, R.t() * T)) * dt;
        v = v * (1 / (1 + ld * dt)); w = w * (1 / (1 + ad * dt));
        com = com + v * dt; Q4 o = q; double h = 0.5 * dt;   // q + h * (w,0) q
        q.x = o.x + h * (w.x * o.w + w.y * o.z - w.z * o.y); q.y = o.y + h * (w.y * o.w + w.z * o.x - w.x * o.z); q.z = o.z + h * (w.z * o.w + w.x * o.y - w.y * o.x); q.w = o.w - h * (w.x * o.x + w.y * o.y + w.z * o.z);
        double n = std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); q.x /= n; q.y /= n; q.z /= n; q.w /= n; F = T = V(); } };
struct Sys { Run& r; PageAllocator al; std::unique_ptr<rp3d::PhysicsCommon> pc; rp3d::PhysicsWorld* w; std::vector<rp3d::RigidBody*> b; std::vector<Ref> f; bool wg = true; V g{0, -9.81, 0.7}; double gsc = 0; int ups = 0;
    Sys(Run& r) : r(r) { pc.reset(new rp3d::PhysicsCommon(&al)); rp3d::PhysicsWorld::WorldSettings s; s.gravity = g.r(); s.defaultTimeBeforeSleep = 1e6f; w = pc->createPhysicsWorld(s); }
    void cmp(const char* what, const char* sig, size_t i, const V& got, const V& want, double tol) { double d = (got - want).len(); r.checked(); if (!(d <= tol * (1 + want.len()))) r.fail(sig, "body %zu: %s is %s, expected %s", i, what, geo::str(got).c_str(), geo::str(want).c_str()); }
    void check() { for (size_t i = 0; i < b.size(); i++) { Ref& q = f[i]; Transform t = b[i]->getTransform(); Quaternion o = t.getOrientation();
            cmp("linear velocity", "linear-velocity", i, b[i]->getLinearVelocity(), q.v, 2e-5); cmp("angular velocity", "angular-velocity", i, b[i]->getAngularVelocity(), q.w, 2e-5);
            cmp("force", "force", i, b[i]->getForce(), q.F, 2e-5); cmp("torque", "torque", i, b[i]->getTorque(), q.T, 4e-5);
            cmp("position", "position", i, t.getPosition(), q.pos(), 4e-5);
            double d = std::min(std::fabs(o.x - q.q.x) + std::fabs(o.y - q.q.y) + std::fabs(o.z - q.q.z) + std::fabs(o.w - q.q.w), std::fabs(o.x + q.q.x) + std::fabs(o.y + q.q.y) + std::fabs(o.z + q.q.z) + std::fabs(o.w + q.q.w));
            r.checked(); if (!(d < 4e-5)) r.fail("orientation", "body %zu: orientation (%g,%g,%g,%g), expected (%g,%g,%g,%g)", i, (double)o.x, (double)o.y, (double)o.z, (double)o.w, q.q.x, q.q.y, q.q.z, q.q.w);
            MC_CHECK(r, std::fabs((double)o.length() - 1) < 1e-5, "unit-quaternion", "body %zu: orientation has length %g", i, (double)o.length()); } }
    void update(double dt) { w->update((decimal)dt); ups++; r.transition(); for (auto& q : f) q.step((double)(decimal)dt, wg, V(g.r())); } };
static const V FO{3, -7, 11}, PT{0.4, -0.3, 0.8};
typedef std::pair<std::string, std::function<void(Sys&, int)>> Op;
static V cr(const V& a, const V& b) { return a.cross(b); }
static std::vector<Op> ops() { std::vector<Op> o; typedef rp3d::RigidBody B;
    auto dyn = [](Sys& s, int i) { return s.f[i].type == BodyType::DYNAMIC; };
    auto R = [](Sys& s, int i) { return rot(s.f[i].q); };
    auto add = [dyn](Sys& s, int i, const V& f, const V& t) { if (!dyn(s, i)) return; s.f[i].F = s.f[i].F + f; s.f[i].T = s.f[i].T + t; };
    o.push_back({"update(1/60)", [](Sys& s, int) { s.update(1.0 / 60); }});
    o.push_back({"update(0.2)", [](Sys& s, int) { s.update(0.2); }});
    o.push_back({"applyLocalForceAtCenterOfMass", [=](Sys& s, int i) { s.b[i]->applyLocalForceAtCenterOfMass(FO.r()); add(s, i, R(s, i) * FO, V()); }});
    o.push_back({"applyWorldForceAtCenterOfMass", [=](Sys& s, int i) { s.b[i]->applyWorldForceAtCenterOfMass(FO.r()); add(s, i, FO, V()); }});
    o.push_back({"applyLocalForceAtLocalPosition", [=](Sys& s, int i) { s.b[i]->applyLocalForceAtLocalPosition(FO.r(), PT.r()); V f = R(s, i) * FO; add(s, i, f, cr(s.f[i].pos() + R(s, i) * PT - s.f[i].com, f)); }});
    o.push_back({"applyWorldForceAtLocalPosition", [=](Sys& s, int i) { s.b[i]->applyWorldForceAtLocalPosition(FO.r(), PT.r()); add(s, i, FO, cr(s.f[i].pos() + R(s, i) * PT - s.f[i].com, FO)); }});
    o.push_back({"applyLocalForceAtWorldPosition", [=](Sys& s, int i) { s.b[i]->applyLocalForceAtWorldPosition(FO.r(), PT.r()); V f = R(s, i) * FO; add(s, i, f, cr(PT - s.f[i].com, f)); }});
    o.push_back({"applyWorldForceAtWorldPosition", [=](Sys& s, int i) { s.b[i]->applyWorldForceAtWorldPosition(FO.r(), PT.r()); add(s, i, FO, cr(PT - s.f[i].com, FO)); }});
    o.push_back({"applyWorldTorque", [=](Sys& s, int i) { s.b[i]->applyWorldTorque(FO.r()); add(s, i, V(), FO); }});
    o.push_back({"applyLocalTorque", [=](Sys& s, int i) { s.b[i]->applyLocalTorque(FO.r()); add(s, i, V(), R(s, i) * FO); }});
    o.push_back({"resetForce", [=](Sys& s, int i) { s.b[i]->resetForce(); if (dyn(s, i)) s.f[i].F = V(); }});
    o.push_back({"resetTorque", [=](Sys& s, int i) { s.b[i]->resetTorque(); if (dyn(s, i)) s.f[i].T = V(); }});
    o.push_back({"setLinearVelocity", [=](Sys& s, int i) { V v(1.5, -2, 0.25); s.b[i]->setLinearVelocity(v.r()); if (s.f[i].type != BodyType::STATIC) s.f[i].v = v; }});
    o.push_back({"setAngularVelocity", [=](Sys& s, int i) { V v(-0.5, 2, 1.25); s.b[i]->setAngularVelocity(v.r()); if (s.f[i].type != BodyType::STATIC) s.f[i].w = v; }});
    o.push_back({"setMass(2.5)", [=](Sys& s, int i) { s.b[i]->setMass(2.5); s.f[i].m = 2.5; }});
    o.push_back({"setMass(0)", [=](Sys& s, int i) { s.b[i]->setMass(0); s.f[i].m = 0; }});
    o.push_back({"setLocalInertiaTensor", [=](Sys& s, int i) { V t(0.5, 1.25, 4); s.b[i]->setLocalInertiaTensor(t.r()); s.f[i].I = t; }});
    o.push_back({"setLocalInertiaTensor(0 x)", [=](Sys& s, int i) { V t(0, 1.25, 2); s.b[i]->setLocalInertiaTensor(t.r()); s.f[i].I = t; }});
    o.push_back({"setLocalCenterOfMass", [=](Sys& s, int i) { V c(0.2, 0.1, -0.4); s.b[i]->setLocalCenterOfMass(c.r()); Ref& q = s.f[i]; V p = q.pos(), old = q.com; q.comL = c; q.setPos(p); q.v = q.v + cr(q.w, q.com - old); }});
    o.push_back({"setLinear/AngularDamping", [=](Sys& s, int i) { s.b[i]->setLinearDamping(decimal(0.5)); s.b[i]->setAngularDamping(decimal(0.125)); s.f[i].ld = 0.5; s.f[i].ad = 0.125; }});
    o.push_back({"setLinearLockAxisFactor", [=](Sys& s, int i) { s.f[i].ll = V(1, 0, 0.5); s.b[i]->setLinearLockAxisFactor(s.f[i].ll.r()); }});
    o.push_back({"setAngularLockAxisFactor", [=](Sys& s, int i) { s.f[i].al = V(0.5, 1, 0); s.b[i]->setAngularLockAxisFactor(s.f[i].al.r()); }});
    o.push_back({"enableGravity(toggle)", [=](Sys& s, int i) { s.f[i].grav = !s.f[i].grav; s.b[i]->enableGravity(s.f[i].grav); }});
    o.push_back({"world.setIsGravityEnabled(toggle)", [=](Sys& s, int) { s.wg = !s.wg; s.w->setIsGravityEnabled(s.wg); }});
    o.push_back({"world.setGravity", [=](Sys& s, int) { s.g = V(1, 2, -3); s.w->setGravity(s.g.r()); }});
    o.push_back({"setTransform", [=](Sys& s, int i) { Ref& q = s.f[i]; Quaternion o(decimal(0.5), decimal(-0.5), decimal(0.5), decimal(0.5)); s.b[i]->setTransform(Transform(Vector3(-3, 7, 2), o)); q.q = {o.x, o.y, o.z, o.w}; q.setPos(V(-3, 7, 2)); }});
    o.push_back({"setIsActive(toggle)", [=](Sys& s, int i) { Ref& q = s.f[i]; q.active = !q.active; s.b[i]->setIsActive(q.active); if (!q.active) q.v = q.w = q.F = q.T = V(); }});
    for (int t = 0; t < 3; t++) o.push_back({std::string("setType(") + (t == 0 ? "static)" : t == 1 ? "kinematic)" : "dynamic)"), [=](Sys& s, int i) { BodyType k = t == 0 ? BodyType::STATIC : t == 1 ? BodyType::KINEMATIC : BodyType::DYNAMIC; s.b[i]->setType(k); Ref& q = s.f[i]; if (q.type == k) return; q.type = k; q.F = q.T = V(); if (t == 0) q.v = q.w = V(); }});
    return o; }
static void freeBodies(Run& r, int dq, int dt) { Sys s(r); auto O = ops(); const double h = std::sqrt(0.5);
    int cfg = r.choose(8), who = r.choose(2); bool spin = r.flip();
    for (int i = 0; i < 2; i++) { Ref q; if (i == who) { if (cfg & 1) q.q = {0, h, 0, h}; if (cfg & 2) q.comL = V(0.3, -0.2, 0.1); if (cfg & 4) { q.I = V(0.25, 1.5, 3); q.m = 4; } if (spin) { q.v = V(1, 2, 3); q.w = V(2, -1, 0.5); } }
        else { q.q = {0.5, 0.5, 0.5, 0.5}; q.comL = V(-0.1, 0.25, 0); q.I = V(2, 1, 0.5); q.m = 0.5; q.v = V(-3, 0, 1); q.w = V(0.1, 0.7, -1); q.ld = 0.1; q.ad = 0.3; }
        V p(i * 40.0, 1, -2); Quaternion o((decimal)q.q.x, (decimal)q.q.y, (decimal)q.q.z, (decimal)q.q.w); q.q = {o.x, o.y, o.z, o.w}; auto* b = s.w->createRigidBody(Transform(p.r(), o)); b->setLocalCenterOfMass(q.comL.r()); b->setLocalInertiaTensor(q.I.r()); b->setMass((decimal)q.m); b->setLinearVelocity(q.v.r()); b->setAngularVelocity(q.w.r()); b->setLinearDamping((decimal)q.ld); b->setAngularDamping((decimal)q.ad); q.setPos(p); s.b.push_back(b); s.f.push_back(q);
        if (cfg & 1) b->addCollider(s.pc->createSphereShape(decimal(0.5)), Transform(Vector3(0, 1, 0), Quaternion::identity())); }
    MC_LOG(r, "operations go to body %d; orientation %d, centre of mass offset %d, inertia (.25,1.5,3) mass 4: %d, moving %d", who, cfg & 1, !!(cfg & 2), !!(cfg & 4), spin);
    s.check(); int depth = r.thorough ? dt : dq, last = -1;
    for (int k = 0; k < depth; k++) { int c = r.choose((int)O.size()); if (c == last && c != 0 && (c < 2 || c > 9)) r.prune(); last = c; MC_LOG(r, "%s", O[c].first.c_str()); s.b[1 - who]->applyWorldForceAtLocalPosition(FO.r(), PT.r()); { Ref& q = s.f[1 - who]; q.F = q.F + FO; q.T = q.T + cr(q.pos() + rot(q.q) * PT - q.com, FO); } O[c].second(s, who); s.check(); }
    for (int k = 0; k < 2; k++) { s.update(k ? 0.05 : 1.0 / 60); s.check(); MC_LOG(r, "update: position %s velocity %s", str(s.b[who]->getTransform().getPosition()).c_str(), str(s.b[who]->getLinearVelocity()).c_str()); }
    mc::Hash hh; for (auto* b : s.b) { hashT(hh, b->getTransform()); hashV(hh, b->getLinearVelocity()); hashV(hh, b->getAngularVelocity()); } r.state(hh.h);
    MC_CHECK(r, s.al.error.empty(), "allocator", "%s", s.al.error.c_str()); }
// long flights: the orientation stays a unit quaternion, and the trajectory stays the reference's
static void flight(Run& r) { Sys s(r); V w = r.pick(std::vector<V>{V(0, 0, 0), V(3, 0, 0), V(0, 30, 0), V(5, -4, 3), V(0, 0, 100)}); double dt = r.pick(std::vector<double>{1.0 / 240, 1.0 / 60, 1.0 / 10}); bool com = r.flip(), damp = r.flip(), force = r.flip();
    Ref q; q.w = w; q.v = V(1, 5, 0); if (com) q.comL = V(0.5, 0, 0.25); if (damp) { q.ld = 0.3; q.ad = 0.7; } q.setPos(V()); auto* b = s.w->createRigidBody(Transform::identity()); b->setLocalCenterOfMass(q.comL.r()); b->setLinearVelocity(q.v.r()); b->setAngularVelocity(w.r()); b->setLinearDamping((decimal)q.ld); b->setAngularDamping((decimal)q.ad); q.ld = (double)(decimal)q.ld; q.ad = (double)(decimal)q.ad;
    for (int k = 0; k < 300; k++) { if (force) { V t(0, 0.2, 0.1); b->applyWorldTorque(t.r()); q.T = t; } s.w->update((decimal)dt); q.step((double)(decimal)dt, true, V(s.g.r())); r.transition(); Transform t = b->getTransform(); Quaternion o = t.getOrientation();
        double d = std::min(std::fabs(o.x - q.q.x) + std::fabs(o.y - q.q.y) + std::fabs(o.z - q.q.z) + std::fabs(o.w - q.q.w), std::fabs(o.x + q.q.x) + std::fabs(o.y + q.q.y) + std::fabs(o.z + q.q.z) + std::fabs(o.w + q.q.w));
        MC_CHECK(r, std::fabs((double)o.length() - 1) < 1e-5, "unit-quaternion", "after %d updates the orientation has length %g", k + 1, (double)o.length());
        MC_CHECK(r, d < 2e-3 && (V(t.getPosition()) - q.pos()).len() < 2e-4 * (5 + q.pos().len()), "trajectory", "after %d updates of %g: position %s, expected %s; orientation off by %g", k + 1, dt, str(t.getPosition()).c_str(), geo::str(q.pos()).c_str(), d); } }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"calls", [](Run& r) { freeBodies(r, 3, 4); }, "all sequences of 30 force/torque/velocity/property/type/gravity/update calls on either of two bodies from 16 initial configurations, depth 3 (thorough 4), then two updates; all getters against the reference after every call"});
    s.push_back({"flight", flight, "300 updates of a spinning body: 5 spins x 3 time steps x centre of mass x damping x torque"});
    return mc::main(c, v, propertyId("C12"), s, "the reference integrator uses the documented scheme: symplectic Euler, damping 1/(1+c*dt), first-order quaternion step, normalised"); }
