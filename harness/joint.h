// A joint together with the geometry it was created with; every judgement is made from body transforms alone.
#pragma once
#include "rp.h"
#include "geo.h"
#include "cat.h"
using rp3d::BodyType; typedef rp3d::JointsPositionCorrectionTechnique JT;
struct D3 { double x, y, z; }; struct Q4 { double x, y, z, w; };
static D3 d3(const Vector3& v) { return {v.x, v.y, v.z}; }
static D3 operator+(D3 a, D3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } static D3 operator-(D3 a, D3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static D3 operator*(D3 a, double s) { return {a.x * s, a.y * s, a.z * s}; }
static double dot(D3 a, D3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static D3 cross(D3 a, D3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } static double len(D3 a) { return std::sqrt(dot(a, a)); }
static Q4 q4(const Quaternion& q) { return {q.x, q.y, q.z, q.w}; }
static Q4 inv(Q4 q) { return {-q.x, -q.y, -q.z, q.w}; }
static Q4 operator*(Q4 a, Q4 b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
static D3 rot(Q4 q, D3 v) { D3 u = {q.x, q.y, q.z}; D3 t = cross(u, v) * 2; return v + t * q.w + cross(u, t); }
static double angleOf(Q4 q) { return 2 * std::atan2(std::sqrt(q.x * q.x + q.y * q.y + q.z * q.z), std::fabs(q.w)); }
static Vector3 v3(D3 a) { return Vector3((decimal)a.x, (decimal)a.y, (decimal)a.z); }
enum { BALL, FIXED, HINGE, SLIDER }; static const char* TN[] = {"ball", "fixed", "hinge", "slider"}; static const char* PN[] = {"dynamic-dynamic", "static-dynamic", "dynamic-static", "kinematic-dynamic", "dynamic-kinematic"};
struct J13 {       // a joint with the geometry it had when it was created
    int type; rp3d::RigidBody *a, *b; rp3d::Joint* j = nullptr; D3 la, lb, axA, axB; Q4 rel0; bool lim = false, motor = false; double lo = -1, hi = 1, speed = 0, maxF = 0;
    D3 X(rp3d::RigidBody* q, D3 l) const { return d3(q->getTransform().getPosition()) + rot(q4(q->getTransform().getOrientation()), l); }
    D3 sep() const { return X(b, lb) - X(a, la); } D3 axis() const { return rot(q4(a->getTransform().getOrientation()), axA); }
    D3 axis2() const { return rot(q4(b->getTransform().getOrientation()), axB); }
    Q4 twist() const { return inv(q4(a->getTransform().getOrientation())) * q4(b->getTransform().getOrientation()) * inv(rel0); }   // rotation of body 2 relative to body 1 since creation, in the frame of body 1
    double angle() const { Q4 t = twist(); return 2 * std::atan2(dot({t.x, t.y, t.z}, axA), t.w); }
    double trans() const { return dot(sep(), axis()); }
    void create(rp3d::PhysicsWorld* w, D3 anchor, D3 axis, bool local, JT tech, bool coll) { D3 ax = axis * (1 / len(axis)); Q4 qa = q4(a->getTransform().getOrientation()), qb = q4(b->getTransform().getOrientation()); la = rot(inv(qa), anchor - d3(a->getTransform().getPosition())); lb = rot(inv(qb), anchor - d3(b->getTransform().getPosition())); axA = rot(inv(qa), ax); axB = rot(inv(qb), ax); rel0 = inv(qa) * qb; D3 gax = local ? ax : axis;
        auto fin = [&](rp3d::JointInfo& i) { i.positionCorrectionTechnique = tech; i.isCollisionEnabled = coll; };
        if (type == BALL) { if (local) { rp3d::BallAndSocketJointInfo i(a, b, v3(la), v3(lb)); fin(i); j = w->createJoint(i); } else { rp3d::BallAndSocketJointInfo i(a, b, v3(anchor)); fin(i); j = w->createJoint(i); } if (lim) { auto* q = static_cast<rp3d::BallAndSocketJoint*>(j); q->setConeLimitHalfAngle((decimal)hi); q->enableConeLimit(true); } }
        if (type == FIXED) { if (local) { rp3d::FixedJointInfo i(a, b, v3(la), v3(lb)); fin(i); j = w->createJoint(i); } else { rp3d::FixedJointInfo i(a, b, v3(anchor)); fin(i); j = w->createJoint(i); } }
        if (type == HINGE) { if (local) { rp3d::HingeJointInfo i(a, b, v3(la), v3(lb), v3(axA), v3(axB), (decimal)lo, (decimal)hi, (decimal)speed, (decimal)maxF); i.isLimitEnabled = lim; i.isMotorEnabled = motor; fin(i); j = w->createJoint(i); } else { rp3d::HingeJointInfo i(a, b, v3(anchor), v3(gax), (decimal)lo, (decimal)hi, (decimal)speed, (decimal)maxF); i.isLimitEnabled = lim; i.isMotorEnabled = motor; fin(i); j = w->createJoint(i); } }
        if (type == SLIDER) { if (local) { rp3d::SliderJointInfo i(a, b, v3(la), v3(lb), v3(axA), (decimal)lo, (decimal)hi, (decimal)speed, (decimal)maxF); i.isLimitEnabled = lim; i.isMotorEnabled = motor; fin(i); j = w->createJoint(i); } else { rp3d::SliderJointInfo i(a, b, v3(anchor), v3(gax), (decimal)lo, (decimal)hi, (decimal)speed, (decimal)maxF); i.isLimitEnabled = lim; i.isMotorEnabled = motor; fin(i); j = w->createJoint(i); } } }
    void holds(Run& r, const char* when, int u, double tp, double ta) const { r.checked(3); D3 s = sep(); if (type != SLIDER) { if (!(len(s) < tp)) r.fail("anchors", "%s, update %d: anchors of the %s joint are %g apart", when, u, TN[type], len(s)); } else { D3 off = s - axis() * trans(); if (!(len(off) < tp)) r.fail("slider-line", "%s, update %d: slider is %g off its line", when, u, len(off)); }
        if (type == FIXED || type == SLIDER) { double q = angleOf(twist()); if (!(q < ta)) r.fail("rotation", "%s, update %d: relative rotation of the %s joint is off by %g", when, u, TN[type], q); }
        if (type == HINGE) { double q = len(cross(axis(), axis2())); if (!(q < ta && dot(axis(), axis2()) > 0)) r.fail("hinge-axis", "%s, update %d: hinge axes of the bodies differ by %g", when, u, q); } }
    void limits(Run& r, const char* when, int u, double tp, double ta) const { if (!lim) return; r.checked(); if (type == HINGE) { double x = angle(); while (x < lo - M_PI) x += 2 * M_PI; while (x > hi + M_PI) x -= 2 * M_PI; if (!(x > lo - ta && x < hi + ta) && !(x + 2 * M_PI < hi + ta) && !(x - 2 * M_PI > lo - ta)) r.fail("hinge-limit", "%s, update %d: hinge angle %g outside [%g, %g]", when, u, x, lo, hi); }
        if (type == SLIDER) { double x = trans(); if (!(x > lo - tp && x < hi + tp)) r.fail("slider-limit", "%s, update %d: translation %g outside [%g, %g]", when, u, x, lo, hi); }
        if (type == BALL) { double c = cone(); if (!(c < hi + ta)) r.fail("cone-limit", "%s, update %d: cone angle %g above %g", when, u, c, hi); } }
    double cone() const { D3 p = rot(q4(a->getTransform().getOrientation()), la - d3(a->getLocalCenterOfMass())), q = rot(q4(b->getTransform().getOrientation()), lb - d3(b->getLocalCenterOfMass())) * -1; return std::atan2(len(cross(p, q)), dot(p, q)); }
    void getters(Run& r, const char* when, int u) const { r.checked(6); if (j->getBody1() != a || j->getBody2() != b) r.fail("bodies", "%s: joint reports other bodies", when);
        if (type == HINGE) { auto* h = static_cast<rp3d::HingeJoint*>(j); if (h->isLimitEnabled() != lim || h->isMotorEnabled() != motor || h->getMinAngleLimit() != (decimal)lo || h->getMaxAngleLimit() != (decimal)hi || h->getMotorSpeed() != (decimal)speed || h->getMaxMotorTorque() != (decimal)maxF) r.fail("getters", "%s: hinge reports limits %d [%g,%g], motor %d %g %g; set %d [%g,%g], %d %g %g", when, h->isLimitEnabled(), (double)h->getMinAngleLimit(), (double)h->getMaxAngleLimit(), h->isMotorEnabled(), (double)h->getMotorSpeed(), (double)h->getMaxMotorTorque(), lim, lo, hi, motor, speed, maxF);
            if (u > 0) { double x = angle(), g = h->getAngle(), d = std::remainder(x - g, 2 * M_PI); if (!(std::fabs(d) < 0.01 + 1.5 * len(cross(axis(), axis2())))) r.fail("angle", "%s, update %d: getAngle() %g, geometry says %g", when, u, g, x); } }
        if (type == SLIDER) { auto* h = static_cast<rp3d::SliderJoint*>(j); if (h->isLimitEnabled() != lim || h->isMotorEnabled() != motor || h->getMinTranslationLimit() != (decimal)lo || h->getMaxTranslationLimit() != (decimal)hi || h->getMotorSpeed() != (decimal)speed || h->getMaxMotorForce() != (decimal)maxF) r.fail("getters", "%s: slider reports limits %d [%g,%g], motor %d %g %g; set %d [%g,%g], %d %g %g", when, h->isLimitEnabled(), (double)h->getMinTranslationLimit(), (double)h->getMaxTranslationLimit(), h->isMotorEnabled(), (double)h->getMotorSpeed(), (double)h->getMaxMotorForce(), lim, lo, hi, motor, speed, maxF);
            if (!(std::fabs(trans() - h->getTranslation()) < 1e-3)) r.fail("translation", "%s, update %d: getTranslation() %g, geometry says %g", when, u, (double)h->getTranslation(), trans()); }
        if (type == BALL) { auto* h = static_cast<rp3d::BallAndSocketJoint*>(j); if (h->isConeLimitEnabled() != lim || (lim && h->getConeLimitHalfAngle() != (decimal)hi)) r.fail("getters", "%s: cone limit %d %g, set %d %g", when, h->isConeLimitEnabled(), (double)h->getConeLimitHalfAngle(), lim, hi); if (lim && !(std::fabs(cone() - h->getConeHalfAngle()) < 5e-3)) r.fail("cone-angle", "%s: getConeHalfAngle() %g, geometry says %g", when, (double)h->getConeHalfAngle(), cone()); } }
};
struct P13 { PageAllocator al; rp3d::PhysicsCommon pc; rp3d::PhysicsWorld* w; rp3d::RigidBody *a, *b; double ma, mb; int bt; Transform ta, tb;
    P13(int bt, double g, double ma, double mb, int orient, bool com) : pc(&al), ma(ma), mb(mb), bt(bt) { rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, (decimal)-g, 0); s.isSleepingEnabled = false; w = pc.createPhysicsWorld(s);
        Quaternion qa = orient & 1 ? axisAngle(1, 2, 3, 1.1) : Quaternion::identity(), qb = orient & 2 ? axisAngle(-2, 1, 1, 2.0) : Quaternion::identity(); ta = Transform(Vector3(0, 0, 0), qa); tb = Transform(Vector3(2, decimal(-.5), decimal(.25)), qb); a = mk(ta, ma, com); b = mk(tb, mb, com);
        if (bt == 1 || bt == 3) a->setType(bt == 1 ? BodyType::STATIC : BodyType::KINEMATIC); if (bt == 2 || bt == 4) b->setType(bt == 2 ? BodyType::STATIC : BodyType::KINEMATIC); }
    rp3d::RigidBody* mk(const Transform& t, double m, bool com) { auto* q = w->createRigidBody(t); q->addCollider(pc.createBoxShape(Vector3(decimal(.4), decimal(.5), decimal(.6))), Transform::identity()); q->updateMassPropertiesFromColliders(); double k = m / q->getMass(); Vector3 I = q->getLocalInertiaTensor(); q->setMass((decimal)m); q->setLocalInertiaTensor(I * (decimal)k); if (com) q->setLocalCenterOfMass(Vector3(decimal(.1), decimal(-.15), decimal(.05))); return q; }
    bool dyn(rp3d::RigidBody* q) const { return q->getType() == BodyType::DYNAMIC; } };
