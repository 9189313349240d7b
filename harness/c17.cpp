// A body whose type was changed and changed back responds like one that was never changed (C17): the same calls, with
// and without the changes of type, on two bodies of two worlds; then the same forces and torques on both.
#include "rp.h"
using namespace rp3d;
struct Two { PhysicsCommon pc; PhysicsWorld* w; RigidBody* b; std::vector<CollisionShape*> sh; BodyType type = BodyType::DYNAMIC; RigidBody* joined = nullptr;
    Two(int s, const Transform& t) { PhysicsWorld::WorldSettings ws; ws.gravity = Vector3(decimal(.5), decimal(-9.81), decimal(.25)); w = pc.createPhysicsWorld(ws); sh = {pc.createBoxShape(Vector3(decimal(.3), decimal(.8), decimal(1.7))), pc.createCapsuleShape(decimal(.4), decimal(1.1)), pc.createSphereShape(decimal(.6))}; b = w->createRigidBody(t); b->addCollider(sh[s], Transform(Vector3(decimal(.2), decimal(-.1), decimal(.3)), Quaternion::identity())); b->updateMassPropertiesFromColliders(); b->setAngularDamping(0); } };
static const char* N17[] = {"update", "setType(static)", "setType(kinematic)", "setType(dynamic)", "setIsActive(toggle)", "setIsSleeping(toggle)", "setMass(5)", "setLocalInertiaTensor(1 2 4)", "setLocalCenterOfMass", "addCollider and updateMassPropertiesFromColliders", "updateLocalInertiaTensorFromColliders", "updateMassFromColliders", "damping and gravity", "lock factors", "setTransform", "forces and torques", "velocities", "remove the last collider"};
static const int NO = 18;
static void op(Two& t, int k, bool types) { RigidBody* b = t.b;
    switch (k) {
    case 0: t.w->update(decimal(.02)); break;
    case 1: case 2: case 3: t.type = k == 1 ? BodyType::STATIC : k == 2 ? BodyType::KINEMATIC : BodyType::DYNAMIC; if (types) b->setType(t.type); break;
    case 4: b->setIsActive(!b->isActive()); break; case 5: if (t.type != BodyType::STATIC && b->isActive()) b->setIsSleeping(!b->isSleeping()); break;
    case 6: b->setMass(5); break; case 7: b->setLocalInertiaTensor(Vector3(1, 2, 4)); break; case 8: b->setLocalCenterOfMass(Vector3(decimal(.1), decimal(.4), decimal(-.2))); break;
    case 9: b->addCollider(t.sh[0], Transform(Vector3(1, 0, 0), Quaternion::fromEulerAngles(decimal(.0), decimal(1.5707963), 0))); b->updateMassPropertiesFromColliders(); break; case 10: b->updateLocalInertiaTensorFromColliders(); break; case 11: b->updateMassFromColliders(); break;
    case 12: b->setLinearDamping(decimal(.5)); b->setAngularDamping(decimal(.25)); b->enableGravity(!b->isGravityEnabled()); break; case 13: b->setLinearLockAxisFactor(Vector3(1, 0, 1)); b->setAngularLockAxisFactor(Vector3(0, 1, 1)); break;
    case 14: b->setTransform(Transform(Vector3(3, 4, 5), Quaternion::fromEulerAngles(decimal(.4), decimal(.7), decimal(-.3)))); break;
    case 15: b->applyWorldForceAtCenterOfMass(Vector3(10, 20, 30)); b->applyWorldTorque(Vector3(-3, 4, 5)); break; case 16: b->setLinearVelocity(Vector3(1, 2, -1)); b->setAngularVelocity(Vector3(2, 1, 1)); break;
    case 17: if (b->getNbColliders()) b->removeCollider(b->getCollider(b->getNbColliders() - 1)); break; } }
static void run(Run& r) { int s = r.choose(3), first = r.choose(2); int depth = r.thorough ? 5 : 4; std::vector<int> o; bool any = false; for (int i = 0; i < depth; i++) { int k = r.choose(NO); if (i && k == o.back() && (k <= 3 || k == 6 || k == 7 || k == 8)) r.prune(); any |= k == 1 || k == 2; o.push_back(k); } if (!any && !first) r.prune();
    static const char* SN[] = {"box", "capsule", "sphere"}; std::string d; for (int k : o) d += std::string("; ") + N17[k]; MC_LOG(r, "%s, initially %s%s; then dynamic and active, put back, forces and torques", SN[s], first ? "set static" : "dynamic", d.c_str());
    Transform at(Vector3(1, 2, 3), Quaternion::fromEulerAngles(decimal(.3), decimal(-.5), decimal(.8))); Two t[2] = {Two(s, at), Two(s, at)};
    for (int q = 0; q < 2; q++) { bool types = q == 0; if (first) op(t[q], 1, types); for (int k : o) { op(t[q], k, types); r.transition(); } op(t[q], 3, types); auto* b = t[q].b; MC_CHECK(r, b->getType() == BodyType::DYNAMIC, "type", "the body is not dynamic after setType(dynamic)");
        b->setIsActive(true); b->setIsSleeping(false); b->resetForce(); b->resetTorque(); b->setTransform(at); b->setLinearVelocity(Vector3(decimal(.5), 0, 1)); b->setAngularVelocity(Vector3(1, -1, decimal(.5))); }
    MC_CHECK(r, t[0].b->getMass() == t[1].b->getMass(), "mass", "mass %g, and %g of the body whose type was never changed", (double)t[0].b->getMass(), (double)t[1].b->getMass());
    for (int u = 0; u < 4; u++) { for (auto& q : t) { if (u == 1) { q.b->applyWorldForceAtLocalPosition(Vector3(20, 5, -7), Vector3(decimal(.3), decimal(.4), decimal(.5))); q.b->applyLocalTorque(Vector3(3, 2, 1)); q.b->applyLocalForceAtCenterOfMass(Vector3(1, 1, 9)); } q.w->update(decimal(.02)); r.transition(); }
        double tol = sizeof(decimal) == 8 ? 1e-9 : 2e-5; auto c = [&](const char* n, Vector3 a, Vector3 b) { r.checked(); MC_CHECK(r, (a - b).length() <= tol * (1 + b.length()), n, "update %d: %s %.8g %.8g %.8g, and %.8g %.8g %.8g for the body whose type was never changed", u, n, (double)a.x, (double)a.y, (double)a.z, (double)b.x, (double)b.y, (double)b.z); };
        auto *a = t[0].b, *b = t[1].b; c("position", a->getTransform().getPosition(), b->getTransform().getPosition()); c("linear velocity", a->getLinearVelocity(), b->getLinearVelocity()); c("angular velocity", a->getAngularVelocity(), b->getAngularVelocity()); c("orientation", a->getTransform().getOrientation().getVectorV(), b->getTransform().getOrientation().getVectorV()); }
    mc::Hash h; h.d(t[0].b->getAngularVelocity().x); h.d(t[0].b->getLinearVelocity().y); r.state(h.h); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"response", run, "all sequences of 4 (thorough 5) of 18 calls (types, activation, sleep, mass, inertia, centre of mass, colliders, damping, gravity, locks, moves, forces, velocities, update) on a box, capsule or sphere set off its origin, dynamic or static first: afterwards dynamic again, and four updates with forces and torques compared with a body on which the same calls but no change of type were made"});
    return mc::main(c, v, propertyId("C17"), s, "the compared bodies touch nothing"); }
