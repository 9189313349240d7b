// Static and kinematic bodies amid contacts, joints, forces and type changes: a static body never moves, a kinematic
// body moves exactly by its own velocity (C16).
#include "rp.h"
#include "geo.h"
#include "cat.h"
using rp3d::BodyType; using geo::V;
struct Rec { rp3d::RigidBody* b; BodyType type; Transform t; Vector3 v, w; bool asleep = false, active = true; };
static Transform AT(double x, double y, double z) { return Transform(Vector3(x, y, z), Quaternion::identity()); }
struct W16 { Run& r; PageAllocator al; std::unique_ptr<rp3d::PhysicsCommon> pc; rp3d::PhysicsWorld* w; std::vector<Rec> a; std::vector<rp3d::RigidBody*> d; std::vector<rp3d::Joint*> j;
    W16(Run& r, bool sleeping, bool split) : r(r) { pc.reset(new rp3d::PhysicsCommon(&al)); rp3d::PhysicsWorld::WorldSettings s; s.isSleepingEnabled = sleeping; s.defaultTimeBeforeSleep = decimal(0.05); w = pc->createPhysicsWorld(s); w->setContactsPositionCorrectionTechnique(split ? rp3d::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : rp3d::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS); }
    void add(BodyType t, const Transform& tr, rp3d::CollisionShape* s) { Rec q; q.b = w->createRigidBody(tr); q.b->addCollider(s, Transform::identity()); q.b->updateMassPropertiesFromColliders(); q.b->setType(t); q.type = t; q.t = tr; q.v = q.w = Vector3(0, 0, 0); a.push_back(q); }
    void check(const char* when) { for (size_t i = 0; i < a.size(); i++) { Rec& q = a[i]; const char* n = q.type == BodyType::STATIC ? "static" : "kinematic"; Transform t = q.b->getTransform(); r.checked(4);
            MC_CHECK(r, q.b->getLinearVelocity() == q.v && q.b->getAngularVelocity() == q.w, "velocity", "%s: %s body %zu has velocity %s / %s, set %s / %s", when, n, i, str(q.b->getLinearVelocity()).c_str(), str(q.b->getAngularVelocity()).c_str(), str(q.v).c_str(), str(q.w).c_str());
            Quaternion o = t.getOrientation(), p = q.t.getOrientation(); bool exact = q.type == BodyType::STATIC;
            double dp = dist(t.getPosition(), q.t.getPosition()), dq = std::min(std::fabs(o.x - p.x) + std::fabs(o.y - p.y) + std::fabs(o.z - p.z) + std::fabs(o.w - p.w), std::fabs(o.x + p.x) + std::fabs(o.y + p.y) + std::fabs(o.z + p.z) + std::fabs(o.w + p.w));
            if (exact ? !(t.getPosition() == q.t.getPosition() && o == p) : !(dp < 2e-5 && dq < 2e-5)) r.fail("moved", "%s: %s body %zu is at %s (%g,%g,%g,%g), must be at %s (%g,%g,%g,%g)", when, n, i, str(t.getPosition()).c_str(), (double)o.x, (double)o.y, (double)o.z, (double)o.w, str(q.t.getPosition()).c_str(), (double)p.x, (double)p.y, (double)p.z, (double)p.w);
            rp3d::Collider* c = q.b->getNbColliders() ? q.b->getCollider(0) : nullptr; if (c) { Transform lw = c->getLocalToWorldTransform(), e = t * c->getLocalToBodyTransform(); if (!(dist(lw.getPosition(), e.getPosition()) < 2e-5)) r.fail("collider-moved", "%s: collider of %s body %zu is at %s, its body at %s", when, n, i, str(lw.getPosition()).c_str(), str(t.getPosition()).c_str()); }
            q.t = t; } }
    void update(double dt, const char* when) { for (auto& q : a) if (q.type == BodyType::KINEMATIC && q.active) { if (q.b->isSleeping()) { q.v = q.w = Vector3(0, 0, 0); continue; } Quaternion o = q.t.getOrientation(); V w(q.w); double h = 0.5 * (decimal)dt; double x = o.x + h * (w.x * o.w + w.y * o.z - w.z * o.y), y = o.y + h * (w.y * o.w + w.z * o.x - w.x * o.z), z = o.z + h * (w.z * o.w + w.x * o.y - w.y * o.x), ww = o.w - h * (w.x * o.x + w.y * o.y + w.z * o.z), n = std::sqrt(x * x + y * y + z * z + ww * ww);
                Quaternion nq(decimal(x / n), decimal(y / n), decimal(z / n), decimal(ww / n)); Vector3 c = q.b->getLocalCenterOfMass(); Vector3 com = q.t.getPosition() + o * c + q.v * (decimal)dt; q.t = Transform(com - nq * c, nq); }
        w->update((decimal)dt); r.transition(); for (auto& q : a) if (q.type == BodyType::KINEMATIC && q.b->isSleeping() && q.v.length() < 0.1 && q.w.length() < 0.3) q.v = q.w = Vector3(0, 0, 0);
        check(when); }
};
static void scene(Run& r, int kind, int dq, int dt) {
    bool sleeping = r.flip(), split = r.flip(); W16 m(r, sleeping, split); int shapeS = r.choose(3), shapeD = r.choose(3); double density = r.choose(2) ? 50 : 0.02;
    static const char* SN[] = {"box floor", "height field", "triangle mesh"}; auto* pc = m.pc.get(); std::vector<rp3d::Message> msg; static float hh[25]; for (int i = 0; i < 25; i++) hh[i] = float((i * 7 % 5) * 0.04);
    rp3d::CollisionShape* fs; static float tv[] = {-4, 0, -4, 4, 0, -4, 4, 0, 4, -4, 0, 4}; static unsigned ti[] = {0, 2, 1, 0, 3, 2};
    if (shapeS == 0) fs = pc->createBoxShape(Vector3(4, 1, 4)); else if (shapeS == 1) fs = pc->createHeightFieldShape(pc->createHeightField(5, 5, hh, rp3d::HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, msg), Vector3(2, 1, 2)); else { rp3d::TriangleVertexArray a(4, tv, 12, 2, ti, 12, rp3d::TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, rp3d::TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); fs = pc->createConcaveMeshShape(pc->createTriangleMesh(a, msg)); }
    m.add(BodyType::STATIC, shapeS == 0 ? AT(0, -1, 0) : AT(0, 0, 0), fs);                     // a0: floor
    m.add(BodyType::KINEMATIC, AT(0.9, 0.55, 0), pc->createBoxShape(Vector3(decimal(.5), decimal(.5), decimal(.5))));   // a1: pusher
    m.add(BodyType::STATIC, Transform(Vector3(-1.6, 0.6, 0), axisAngle(0, 0, 1, 0.4)), pc->createCapsuleShape(decimal(.4), 1));   // a2: post
    if (m.a[1].b->getType() == BodyType::KINEMATIC) { m.a[1].b->setLocalCenterOfMass(Vector3(decimal(.1), 0, decimal(.2))); }
    rp3d::CollisionShape* ds = shapeD == 0 ? (rp3d::CollisionShape*)pc->createSphereShape(decimal(.5)) : shapeD == 1 ? (rp3d::CollisionShape*)pc->createBoxShape(Vector3(decimal(.4), decimal(.5), decimal(.4))) : (rp3d::CollisionShape*)pc->createCapsuleShape(decimal(.35), decimal(.6));
    for (int i = 0; i < 2; i++) { auto* b = m.w->createRigidBody(AT(i ? 0.9 : -0.15, i ? 1.6 : 0.5, 0)); b->addCollider(ds, Transform::identity())->getMaterial().setMassDensity((decimal)density); b->updateMassPropertiesFromColliders(); b->setLinearVelocity(Vector3(i ? 0 : 2, -3, 0)); m.d.push_back(b); }
    MC_LOG(r, "sleeping %d, %s, support: %s, dynamic shape %d density %g", sleeping, split ? "split impulses" : "Baumgarte", SN[shapeS], shapeD, density);
    std::vector<std::pair<std::string, std::function<bool()>>> O; auto add = [&](const std::string& n, std::function<bool()> f) { O.push_back({n, f}); };
    add("3 updates", [&] { for (int i = 0; i < 3; i++) m.update(1.0 / 60, "update"); return true; });
    add("kinematic.setLinearVelocity", [&] { auto& q = m.a[1]; if (!q.active) return false; q.v = q.v.x < 0 ? Vector3(0, decimal(.5), 0) : Vector3(-2, 0, decimal(.3)); q.b->setLinearVelocity(q.type == BodyType::STATIC ? Vector3(5, 5, 5) : q.v); if (q.type == BodyType::STATIC) q.v = Vector3(0, 0, 0); return true; });
    add("kinematic.setAngularVelocity", [&] { auto& q = m.a[1]; if (!q.active) return false; q.w = Vector3(0, 2, decimal(.5)); q.b->setAngularVelocity(q.w); if (q.type == BodyType::STATIC) q.w = Vector3(0, 0, 0); return true; });
    if (kind == 0) {
        add("kinematic.setTransform", [&] { auto& q = m.a[1]; q.t = Transform(Vector3(decimal(-.6), decimal(1.2), 0), axisAngle(1, 0, 1, 0.8)); q.b->setTransform(q.t); return true; });
        add("floor.setTransform", [&] { auto& q = m.a[0]; q.t = Transform(q.t.getPosition() + Vector3(0, decimal(.1), 0), q.t.getOrientation()); q.b->setTransform(q.t); return true; });
        add("forces and velocities on floor and pusher", [&] { for (auto& q : m.a) if (q.active) { q.b->applyWorldForceAtCenterOfMass(Vector3(1000, 2000, 0)); q.b->applyWorldTorque(Vector3(500, 0, 900)); q.b->applyWorldForceAtWorldPosition(Vector3(0, 800, 0), Vector3(3, 3, 3)); q.b->applyLocalForceAtLocalPosition(Vector3(0, 800, 100), Vector3(3, 3, 3)); q.b->applyLocalTorque(Vector3(1, 2, 3)); if (q.type == BodyType::STATIC) { q.b->setLinearVelocity(Vector3(3, 3, 3)); q.b->setAngularVelocity(Vector3(3, 3, 3)); q.b->setLinearDamping(2); q.b->setAngularDamping(3); } } return true; });
        add("mass properties of floor and pusher", [&] { for (auto& q : m.a) { q.b->setMass(3); q.b->setLocalInertiaTensor(Vector3(1, 2, 3)); q.b->updateMassFromColliders(); q.b->updateLocalInertiaTensorFromColliders(); q.b->setLinearLockAxisFactor(Vector3(decimal(.5), 1, 1)); } return true; });
        add("updateMassPropertiesFromColliders of floor and pusher", [&] { for (auto& q : m.a) { if (q.type == BodyType::STATIC || q.w.length() == 0) q.b->updateMassPropertiesFromColliders(); } return true; });
        add("swap types of pusher and post", [&] { for (int i = 1; i < 3; i++) { auto& q = m.a[i]; q.type = q.type == BodyType::STATIC ? BodyType::KINEMATIC : BodyType::STATIC; q.b->setType(q.type); if (q.type == BodyType::STATIC) q.v = q.w = Vector3(0, 0, 0); } return true; });
        add("pusher via dynamic and back", [&] { auto& q = m.a[1]; BodyType t = q.type; q.b->setType(BodyType::DYNAMIC); q.b->applyWorldForceAtCenterOfMass(Vector3(500, 0, 0)); q.b->setType(t); if (t == BodyType::STATIC) q.v = q.w = Vector3(0, 0, 0); return true; });
        add("pusher.toggleActive", [&] { auto& q = m.a[1]; q.active = !q.active; q.b->setIsActive(q.active); q.v = q.b->getLinearVelocity(); q.w = q.b->getAngularVelocity(); return true; });
        add("pusher.setIsSleeping(true)", [&] { auto& q = m.a[1]; if (q.type == BodyType::STATIC || !q.active) return false; q.b->setIsSleeping(true); q.v = q.w = Vector3(0, 0, 0); return true; });
        add("dynamic bodies hit again", [&] { for (auto* b : m.d) { b->setLinearVelocity(Vector3(6, -9, 2)); b->setAngularVelocity(Vector3(3, 4, 5)); } return true; });
    } else {
        add("pull hard", [&] { for (auto* b : m.d) b->applyWorldForceAtCenterOfMass(Vector3(3000, 5000, -2000) * (decimal)density * decimal(0.1)); return true; });
        add("swap types of pusher and post", [&] { for (int i = 1; i < 3; i++) { auto& q = m.a[i]; q.type = q.type == BodyType::STATIC ? BodyType::KINEMATIC : BodyType::STATIC; q.b->setType(q.type); if (q.type == BodyType::STATIC) q.v = q.w = Vector3(0, 0, 0); } return true; });
        add("destroy last joint", [&] { if (m.j.empty()) return false; m.w->destroyJoint(m.j.back()); m.j.pop_back(); return true; });
        for (int t = 0; t < 4; t++) for (int k = 0; k < 5; k++) { static const char* JN[] = {"ball", "fixed", "hinge", "slider"}; static const char* PN[] = {"pusher-dyn", "dyn-pusher", "post-dyn", "dyn-floor", "pusher-post"};
            add(std::string("joint ") + JN[t] + " " + PN[k], [&m, t, k] { if (m.j.size() >= 4) return false; rp3d::RigidBody *x, *y; switch (k) { case 0: x = m.a[1].b; y = m.d[1]; break; case 1: x = m.d[0]; y = m.a[1].b; break; case 2: x = m.a[2].b; y = m.d[0]; break; case 3: x = m.d[1]; y = m.a[0].b; break; default: x = m.a[1].b; y = m.a[2].b; }
                Vector3 an = (x->getTransform().getPosition() + y->getTransform().getPosition()) * decimal(.5); rp3d::Joint* j; auto T = t & 1 ? rp3d::JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS : rp3d::JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL;
                if (t == 0) { rp3d::BallAndSocketJointInfo i(x, y, an); j = m.w->createJoint(i); static_cast<rp3d::BallAndSocketJoint*>(j)->setConeLimitHalfAngle(decimal(.2)); static_cast<rp3d::BallAndSocketJoint*>(j)->enableConeLimit(true); }
                else if (t == 1) { rp3d::FixedJointInfo i(x, y, an); i.positionCorrectionTechnique = k & 1 ? T : rp3d::JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL; j = m.w->createJoint(i); }
                else if (t == 2) { rp3d::HingeJointInfo i(x, y, an, Vector3(0, 0, 1), decimal(-.1), decimal(.1), 2, 50); i.isCollisionEnabled = false; i.positionCorrectionTechnique = k & 1 ? rp3d::JointsPositionCorrectionTechnique::BAUMGARTE_JOINTS : T; i.isLimitEnabled = true; i.isMotorEnabled = true; j = m.w->createJoint(i); }
                else { rp3d::SliderJointInfo i(x, y, an, Vector3(1, 0, 0), decimal(-.1), decimal(.1), 2, 50); i.positionCorrectionTechnique = k & 1 ? rp3d::JointsPositionCorrectionTechnique::NON_LINEAR_GAUSS_SEIDEL : T; i.isLimitEnabled = true; i.isMotorEnabled = true; j = m.w->createJoint(i); }
                m.j.push_back(j); return true; }); } }
    m.check("start"); int depth = r.thorough ? dt : dq;
    for (int s = 0; s < depth; s++) { int k = r.choose((int)O.size()); MC_LOG(r, "%s", O[k].first.c_str()); if (!O[k].second()) r.prune(); m.check(O[k].first.c_str()); m.update(1.0 / 60, O[k].first.c_str()); }
    for (int i = 0; i < 5; i++) m.update(1.0 / 60, "final updates");
    mc::Hash h; for (auto& q : m.a) { hashT(h, q.t); h.u((int)q.type); } for (auto* b : m.d) hashT(h, b->getTransform()); r.state(h.h); MC_CHECK(r, m.al.error.empty(), "allocator", "%s", m.al.error.c_str());
    for (auto* b : m.d) MC_CHECK(r, finite(b->getTransform().getPosition()) && finite(b->getLinearVelocity()), "nan", "a dynamic body has a non-finite state"); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"contact", [](Run& r) { scene(r, 0, 3, 4); }, "static floor (box, height field, triangle mesh), kinematic pusher, static post and two dynamic bodies (3 shapes, 2 densities), sleeping on/off, both contact correction techniques; all sequences of 14 operations, depth 3 (thorough 4), an update after each and 5 at the end"});
    s.push_back({"joint", [](Run& r) { scene(r, 1, 2, 3); }, "the same with all joint types between static, kinematic and dynamic bodies (limits and motors on, both correction techniques); 26 operations, depth 2 (thorough 3)"});
    return mc::main(c, v, propertyId("C16"), s, "kinematic bodies have zero damping; their transforms are compared within 2e-5 per update, those of static bodies exactly"); }
