// Mass, centre of mass and inertia of bodies against closed formulas, for every sequence of collider changes,
// setters, automatic updates and type changes (C11).
#include "rp.h"
#include "geo.h"
#include "cat.h"
using rp3d::BodyType; using geo::V; using geo::M;
static std::vector<Spec> shapeList() { return {S0(0.7), S1(0.4, 1.3), S2(0.5, 1.25, 0.2), S3("octahedron", meshOcta(.5, .8, 1.2), geo::V(2, .5, 1.5)), S3("prism6", meshPrism(6, 0.8, 1.4), geo::V(1, 2, 1)), S3("boxmesh", meshBox(.5, .3, .9)), S3("wedge", meshWedge()), S3("tetra+off", meshTetra(0.6, geo::V(0.4, -0.2, 2.5)), geo::V(1, 1, 1))}; }
static double solidVolume(const Spec& s) { if (s.kind == 0) return 4.0 / 3 * M_PI * s.a * s.a * s.a; if (s.kind == 1) return M_PI * s.a * s.a * (4.0 / 3 * s.a + s.b); if (s.kind == 2) return 8 * s.a * s.b * s.c;
    geo::Solid q = solidOf(s); V c = q.centre(); double v = 0; for (auto& f : q.f) for (size_t k = 1; k + 1 < f.size(); k++) v += std::fabs((q.v[f[0]] - c).dot((q.v[f[k]] - c).cross(q.v[f[k + 1]] - c))) / 6; return v; }
static V localInertia(const Spec& s, double m) { if (s.kind == 0) { double i = 0.4 * m * s.a * s.a; return V(i, i, i); }
    if (s.kind == 1) { double r = s.a, h = s.b, t = 4 * r + 3 * h, ms = m * 4 * r / t, mc = m * 3 * h / t; double y = 0.4 * ms * r * r + 0.5 * mc * r * r, x = ms * (0.4 * r * r + h * h / 4 + 3.0 / 8 * h * r) + mc * (r * r / 4 + h * h / 12); return V(x, y, x); }
    V e(s.a, s.b, s.c); if (s.kind > 2) { V lo, hi; geo::bounds(solidOf(s), lo, hi); e = (hi - lo) * 0.5; }   // convex meshes: documented as the tensor of the bounding box
    return V(m / 3 * (e.y * e.y + e.z * e.z), m / 3 * (e.x * e.x + e.z * e.z), m / 3 * (e.x * e.x + e.y * e.y)); }
struct C { rp3d::Collider* c; Spec s; Transform t; double dens = 1; };
static void shapeProps(Run& r) { auto L = shapeList(); Spec s = L[r.choose((int)L.size())]; int via = r.choose(2); double k = r.pick(std::vector<double>{1, 0.01, 30}); double mass = r.pick(std::vector<double>{1, 0.004, 500});
    s.a *= k; s.b *= k; s.c *= k; for (auto& p : s.mesh.v) p = p * k; PageAllocator al; { rp3d::PhysicsCommon pc(&al); auto* w = pc.createPhysicsWorld(); auto* sh = makeShape(pc, s, via); r.transition(); MC_LOG(r, "%s scaled by %g (%s)", s.name.c_str(), k, via ? "resized" : "created");
        double v = sh->getVolume(), ev = solidVolume(s); MC_CHECK(r, std::fabs(v - ev) <= 2e-5 * ev, "volume", "%s x %g: getVolume() is %g, the solid has %g", s.name.c_str(), k, v, ev);
        V i(sh->getLocalInertiaTensor((decimal)mass)), ei = localInertia(s, mass); MC_CHECK(r, (i - ei).len() <= 3e-5 * ei.len(), "inertia", "%s x %g mass %g: inertia %s, the solid has %s", s.name.c_str(), k, mass, geo::str(i).c_str(), geo::str(ei).c_str()); (void)w; } MC_CHECK(r, al.error.empty() && al.live.empty(), "allocator", "%s", al.error.c_str()); }
struct B11 { Run& r; PageAllocator al; std::unique_ptr<rp3d::PhysicsCommon> pc; rp3d::PhysicsWorld* w; rp3d::RigidBody* b; std::vector<C> c; double m = 1; V com, I{1, 1, 1}; V v, om; BodyType type = BodyType::DYNAMIC; Transform t; int ser = 0;
    B11(Run& r) : r(r) { pc.reset(new rp3d::PhysicsCommon(&al)); rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, 0, 0); s.defaultTimeBeforeSleep = 1e6f; w = pc->createPhysicsWorld(s); t = Transform(Vector3(1, -2, 3), axisAngle(1, 2, 2, 0.9)); b = w->createRigidBody(t); }
    void add(const Spec& s, const Transform& tr) { C q; q.s = s; q.t = tr; q.c = b->addCollider(makeShape(*pc, s, 0), tr); q.dens = 1; if (q.c->getMaterial().getMassDensity() != 1) r.fail("density", "default density is not 1"); c.push_back(q); }
    double mass() { double s = 0; for (auto& q : c) s += q.dens * solidVolume(q.s); return s; }
    V centre() { double s = 0; V x; for (auto& q : c) { double mm = q.dens * solidVolume(q.s); s += mm; x = x + V(q.t.getPosition()) * mm; } return s > 0 ? x * (1 / s) : V(); }
    V inertia() { double d[3] = {0, 0, 0}; for (auto& q : c) { double mm = q.dens * solidVolume(q.s); V l = localInertia(q.s, mm); geo::T T(q.t); V o = T.p - com; for (int i = 0; i < 3; i++) { for (int k = 0; k < 3; k++) d[i] += T.R.m[i][k] * T.R.m[i][k] * l[k]; d[i] += mm * (o.len2() - o[i] * o[i]); } } return V(d[0], d[1], d[2]); }
    void setCom(const V& x) { V d = geo::T(t).R * (x - com); com = x; v = v + om.cross(d); }
    void check(const char* what) { V gi(b->getLocalInertiaTensor()), gc(b->getLocalCenterOfMass()); r.checked(3);
        MC_CHECK(r, std::fabs((double)b->getMass() - m) <= 1e-4 * m + 1e-6, "mass", "after %s: mass %g, expected %g", what, (double)b->getMass(), m);
        MC_CHECK(r, (gc - com).len() <= 1e-4, "centre", "after %s: centre of mass %s, expected %s", what, geo::str(gc).c_str(), geo::str(com).c_str());
        MC_CHECK(r, (gi - I).len() <= 2e-4 * I.len() + 1e-6, "inertia", "after %s: inertia %s, expected %s", what, geo::str(gi).c_str(), geo::str(I).c_str());
        MC_CHECK(r, (V(b->getLinearVelocity()) - v).len() < 1e-3 && (V(b->getAngularVelocity()) - om).len() < 1e-4, "velocity", "after %s: velocity %s / %s, expected %s / %s", what, str(b->getLinearVelocity()).c_str(), str(b->getAngularVelocity()).c_str(), geo::str(v).c_str(), geo::str(om).c_str());
        MC_CHECK(r, dist(b->getTransform().getPosition(), t.getPosition()) < 1e-5, "moved", "after %s the body has moved", what); }
    void probe() {   // the motion the body shows under a force and a torque has to be that of this mass and inertia
        if (type == BodyType::STATIC) return; b->setLinearVelocity(Vector3(0, 0, 0)); b->setAngularVelocity(Vector3(0, 0, 0)); V F(2, -3, 1), T(1, 2, -1.5); b->applyWorldForceAtCenterOfMass(F.r()); b->applyWorldTorque(T.r()); double dt = 0.015625; w->update((decimal)dt); r.transition();
        V ev, ew; if (type == BodyType::DYNAMIC) { if (m > 0) ev = F * (dt / m); V l = geo::T(t).R.t() * T; ew = geo::T(t).R * V(I.x > 0 ? l.x / I.x : 0, I.y > 0 ? l.y / I.y : 0, I.z > 0 ? l.z / I.z : 0) * dt; }
        V gv(b->getLinearVelocity()), gw(b->getAngularVelocity()); MC_CHECK(r, (gv - ev).len() <= 3e-4 * ev.len() + 1e-6 && (gw - ew).len() <= 5e-4 * ew.len() + 1e-6, "response", "a force and a torque give velocities %s / %s, the mass %g and inertia %s require %s / %s", geo::str(gv).c_str(), geo::str(gw).c_str(), m, geo::str(I).c_str(), geo::str(ev).c_str(), geo::str(ew).c_str());
        b->setLinearVelocity(Vector3(0, 0, 0)); b->setAngularVelocity(Vector3(0, 0, 0)); b->setTransform(t); b->setLinearVelocity(v.r()); b->setAngularVelocity(om.r()); }
};
static void history(Run& r) { B11 s(r); auto L = shapeList(); L.pop_back(); L.erase(L.begin() + 6);   // only shapes whose origin is their centroid
    static const std::vector<Transform> TR = {Transform::identity(), Transform(Vector3(1, decimal(.5), -2), Quaternion::identity()), Transform(Vector3(decimal(-.7), 0, decimal(.4)), axisAngle(1, -1, 2, 1.2)), Transform(Vector3(0, decimal(3), 0), axisAngle(0, 0, 1, M_PI / 2))};
    int start = r.choose(3); if (start == 1) { s.add(L[0], TR[1]); s.add(L[2], TR[2]); } if (start == 2) { s.v = V(1, 2, 3); s.om = V(-1, 0.5, 2); s.b->setLinearVelocity(s.v.r()); s.b->setAngularVelocity(s.om.r()); s.add(L[1], TR[3]); }
    std::vector<std::pair<std::string, std::function<bool()>>> O; auto add = [&](const std::string& n, std::function<bool()> f) { O.push_back({n, f}); };
    for (size_t k = 0; k < L.size(); k++) add("addCollider " + L[k].name, [&s, k, &L] { if (s.c.size() > 3) return false; s.add(L[k], TR[(k * 3 + s.ser++) % 4]); return true; });
    add("removeCollider(first)", [&] { if (s.c.empty()) return false; s.b->removeCollider(s.c[0].c); s.c.erase(s.c.begin()); return true; });
    add("setMassDensity", [&] { if (s.c.empty()) return false; auto& q = s.c.back(); q.dens = q.dens == 1 ? 2.5 : 0; q.c->getMaterial().setMassDensity((decimal)q.dens); return true; });
    add("setLocalToBodyTransform", [&] { if (s.c.empty()) return false; auto& q = s.c[0]; q.t = TR[2]; q.c->setLocalToBodyTransform(q.t); return true; });
    add("resize", [&] { if (s.c.empty()) return false; auto& q = s.c.back(); auto* sh = q.c->getCollisionShape(); switch (q.s.kind) { case 0: q.s.a = 1.1; static_cast<rp3d::SphereShape*>(sh)->setRadius(decimal(1.1)); break; case 1: q.s.a = 0.6; q.s.b = 0.5; static_cast<rp3d::CapsuleShape*>(sh)->setRadius(decimal(.6)); static_cast<rp3d::CapsuleShape*>(sh)->setHeight(decimal(.5)); break; case 2: q.s.a = .3; q.s.b = .4; q.s.c = .7; static_cast<rp3d::BoxShape*>(sh)->setHalfExtents(Vector3(decimal(.3), decimal(.4), decimal(.7))); break; default: q.s.scale = V(.5, 1.25, 2); static_cast<rp3d::ConvexMeshShape*>(sh)->setScale(q.s.scale.r()); } return true; });
    add("updateMassPropertiesFromColliders", [&] { s.b->updateMassPropertiesFromColliders(); s.setCom(s.centre()); s.I = s.inertia(); s.m = s.mass(); return true; });
    add("updateMassFromColliders", [&] { s.b->updateMassFromColliders(); s.m = s.mass(); return true; });
    add("updateLocalCenterOfMassFromColliders", [&] { s.b->updateLocalCenterOfMassFromColliders(); s.setCom(s.centre()); return true; });
    add("updateLocalInertiaTensorFromColliders", [&] { s.b->updateLocalInertiaTensorFromColliders(); s.I = s.inertia(); return true; });
    add("setMass(3)", [&] { s.b->setMass(3); s.m = 3; return true; });
    add("setMass(-1)", [&] { s.b->setMass(-1); return true; });
    add("setLocalCenterOfMass", [&] { s.b->setLocalCenterOfMass(Vector3(decimal(.5), -1, decimal(.25))); s.setCom(V(.5, -1, .25)); return true; });
    add("setLocalInertiaTensor", [&] { s.b->setLocalInertiaTensor(Vector3(2, 3, 4)); s.I = V(2, 3, 4); return true; });
    add("setType(static) and back", [&] { if (s.type != BodyType::DYNAMIC) return false; s.b->setType(BodyType::STATIC); s.v = s.om = V(); s.type = BodyType::STATIC; return true; });
    add("setType(dynamic)", [&] { if (s.type == BodyType::DYNAMIC) return false; s.b->setType(BodyType::DYNAMIC); s.type = BodyType::DYNAMIC; return true; });
    add("setType(kinematic)", [&] { if (s.type == BodyType::KINEMATIC) return false; s.b->setType(BodyType::KINEMATIC); s.type = BodyType::KINEMATIC; return true; });
    s.check("creation"); int depth = r.thorough ? 5 : 4, last = -1; for (int k = 0; k < depth; k++) { int o = r.choose((int)O.size()); MC_LOG(r, "%s", O[o].first.c_str()); if (o == last && o >= (int)L.size() + 4) r.prune(); last = o; bool kin = s.type == BodyType::KINEMATIC && s.om.len() > 0; (void)kin; if (!O[o].second()) r.prune(); r.transition(); if (s.type == BodyType::KINEMATIC && O[o].first.find("updateMassProperties") == 0) { s.v = V(s.b->getLinearVelocity()); } s.check(O[o].first.c_str()); }
    s.probe(); // the combined update agrees with the separate ones, whatever came before
    s.b->updateMassPropertiesFromColliders(); s.com = s.centre(); s.I = s.inertia(); s.m = s.mass(); s.v = V(s.b->getLinearVelocity()); s.check("final updateMassPropertiesFromColliders"); Vector3 i1 = s.b->getLocalInertiaTensor(), c1 = s.b->getLocalCenterOfMass(); decimal m1 = s.b->getMass();
    s.b->setMass(7); s.b->setLocalCenterOfMass(Vector3(1, 1, 1)); s.b->updateLocalCenterOfMassFromColliders(); s.b->updateMassFromColliders(); s.b->updateLocalInertiaTensorFromColliders(); MC_CHECK(r, std::fabs((double)(s.b->getMass() - m1)) <= 1e-5 * std::fabs((double)m1) && (s.b->getLocalInertiaTensor() - i1).length() <= decimal(1e-5) * (1 + i1.length()) && (s.b->getLocalCenterOfMass() - c1).length() <= decimal(1e-5) * (1 + c1.length()), "separate", "separate updates give mass %g centre %s inertia %s, the combined update %g %s %s", (double)s.b->getMass(), str(s.b->getLocalCenterOfMass()).c_str(), str(s.b->getLocalInertiaTensor()).c_str(), (double)m1, str(c1).c_str(), str(i1).c_str());
    s.v = V(s.b->getLinearVelocity()); s.om = V(s.b->getAngularVelocity()); s.probe();
    if (s.type != BodyType::DYNAMIC) { s.b->setType(BodyType::DYNAMIC); s.type = BodyType::DYNAMIC; s.probe(); }
    mc::Hash h; h.d(m1); hashV(h, i1); hashV(h, c1); r.state(h.h); MC_CHECK(r, s.al.error.empty(), "allocator", "%s", s.al.error.c_str()); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"shapes", shapeProps, "8 shapes (sphere, capsule, box, scaled convex meshes, also away from their origin), created or resized, 3 sizes, 3 masses: volume and local inertia"});
    s.push_back({"history", history, "all sequences of 23 collider, density, placement, size, setter, automatic update and type calls on a body with 0-2 initial colliders, depth 4 (thorough 5), then a force/torque probe and the combined against the separate updates"});
    return mc::main(c, v, propertyId("C11"), s, "the inertia getter holds the diagonal of the tensor in body axes; convex meshes use their bounding box's tensor (documented) and their local origin as centroid, so only meshes centred on their origin are used for the centre of mass"); }
