// Contact response (C15): impulses between bodies conserve momentum, push only, obey restitution and the friction
// bound, never create energy, and keep resting bodies where they are.
#include "rp.h"
#include "geo.h"
#include "cat.h"
using rp3d::BodyType; using geo::V;
static Transform AT(double x, double y, double z, Quaternion q = Quaternion::identity()) { return Transform(Vector3((decimal)x, (decimal)y, (decimal)z), q); }
static V vv(const Vector3& a) { return V(a.x, a.y, a.z); }
static double dt2(const V& a, const V& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V cr(const V& a, const V& b) { return V(a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x); }
static double ln(const V& a) { return std::sqrt(dt2(a, a)); }
static V sc(const V& a, double s) { return V(a.x * s, a.y * s, a.z * s); }
static V ad(const V& a, const V& b) { return V(a.x + b.x, a.y + b.y, a.z + b.z); }
static V sb(const V& a, const V& b) { return V(a.x - b.x, a.y - b.y, a.z - b.z); }
struct Pt { V p1, p2, n; double depth; };
struct L15 : rp3d::EventListener { rp3d::RigidBody* first = nullptr; std::vector<Pt> pts; int pairs = 0;
    void onContact(const rp3d::CollisionCallback::CallbackData& d) override { for (unsigned p = 0; p < d.getNbContactPairs(); p++) { auto c = d.getContactPair(p); if (c.getEventType() == rp3d::CollisionCallback::ContactPair::EventType::ContactExit) continue; pairs++; bool sw = c.getBody1() != first;
            for (unsigned k = 0; k < c.getNbContactPoints(); k++) { auto q = c.getContactPoint(k); Pt t; t.p1 = vv(c.getCollider1()->getLocalToWorldTransform() * q.getLocalPointOnCollider1()); t.p2 = vv(c.getCollider2()->getLocalToWorldTransform() * q.getLocalPointOnCollider2()); t.n = vv(q.getWorldNormal()); t.depth = q.getPenetrationDepth(); if (sw) { std::swap(t.p1, t.p2); t.n = sc(t.n, -1); } pts.push_back(t); } } } };
struct B15 { rp3d::RigidBody* b; double m, I; V x, v, w; void read() { x = vv(b->getTransform() * b->getLocalCenterOfMass()); v = vv(b->getLinearVelocity()); w = vv(b->getAngularVelocity()); } };
static rp3d::CollisionShape* shp(rp3d::PhysicsCommon& pc, int k) { return k == 0 ? (rp3d::CollisionShape*)pc.createSphereShape(decimal(.5)) : k == 1 ? (rp3d::CollisionShape*)pc.createBoxShape(Vector3(decimal(.5), decimal(.5), decimal(.5))) : (rp3d::CollisionShape*)pc.createCapsuleShape(decimal(.4), decimal(.6)); }
static const char* SN[] = {"sphere", "cube", "capsule", "tilted cube", "mesh octahedron"};
static bool LIE = false;
static const double R0[] = {.5, .5, .4, .5 * std::sqrt(3.0), .6};   // extent along the line of centres (x)
static rp3d::PhysicsWorld::WorldSettings st(bool sleeping = false, double g = 0) { rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, (decimal)-g, 0); s.isSleepingEnabled = sleeping; return s; }
static B15 mk(rp3d::PhysicsCommon& pc, rp3d::PhysicsWorld* w, int shape, double x, double y, double m, double e, double mu) { B15 b; Quaternion q = Quaternion::identity(); rp3d::CollisionShape* s;
    if (shape == 3) { Quaternion a(decimal(std::sin(M_PI / 8)), 0, 0, decimal(std::cos(M_PI / 8))); double t = std::atan(std::sqrt(2.0)); Quaternion c(0, decimal(std::sin(t / 2)), 0, decimal(std::cos(t / 2))); q = c * a; s = shp(pc, 1); }
    else if (shape == 4) { static float pv[] = {.6f, 0, 0, -.6f, 0, 0, 0, .6f, 0, 0, -.6f, 0, 0, 0, .6f, 0, 0, -.6f}; std::vector<rp3d::Message> msg; rp3d::VertexArray va(pv, 12, 6, rp3d::VertexArray::DataType::VERTEX_FLOAT_TYPE); s = pc.createConvexMeshShape(pc.createConvexMesh(va, msg)); }
    else { s = shp(pc, shape); if (LIE && shape == 2) q = axisAngle(0, 0, 1, M_PI / 2); }
    b.b = w->createRigidBody(AT(x, y, 0, q)); auto* c = b.b->addCollider(s, Transform::identity()); c->getMaterial().setBounciness((decimal)e); c->getMaterial().setFrictionCoefficient((decimal)mu); b.m = m; b.I = 0.1 * m; b.b->setMass((decimal)m); b.b->setLocalInertiaTensor(Vector3(decimal(.1 * m), decimal(.1 * m), decimal(.1 * m))); b.read(); return b; }
static double KE(const B15& a) { return .5 * a.m * dt2(a.v, a.v) + .5 * a.I * dt2(a.w, a.w); }

static void pairScene(Run& r) {
    int s1 = r.choose(5), s2 = r.choose(r.thorough ? 5 : 4); if (s2 < s1 && !r.thorough) r.prune(); double mr = r.pick(std::vector<double>{1, 8, 100}); bool order = r.flip(), split = r.flip();
    static const double E1[] = {0, .5, 1, 1}, E2[] = {0, .5, 0, 1}; int ei = r.choose(4); static const double M1[] = {0, .25, 1, 2}, M2[] = {0, 1, 1, 0}; int mi = r.choose(4);
    double vn = r.pick(std::vector<double>{0.3, 2, 9}); double vt = r.pick(std::vector<double>{0, 1, -3}); int spin = r.choose(4), off = r.choose(3); double dt = r.thorough && r.flip() ? 1.0 / 120 : 1.0 / 60;
    double thr = s1 == 0 && s2 == 0 ? r.pick(std::vector<double>{.5, .05, 3}) : .5; double e = std::max(E1[ei], E2[ei]), mu = std::sqrt(M1[mi] * M2[mi]);
    MC_LOG(r, "%s - %s, masses 1 : %g, created %s, %s, restitution %g/%g, friction %g/%g, approach %g, tangential %g, spin %d, offset %d", SN[s1], SN[s2], mr, order ? "2 first" : "1 first", split ? "split impulses" : "Baumgarte", E1[ei], E2[ei], M1[mi], M2[mi], vn, vt, spin, off);
    PageAllocator al; rp3d::PhysicsCommon pc(&al); auto wst = st(); wst.restitutionVelocityThreshold = (decimal)thr; auto* w = pc.createPhysicsWorld(wst); w->setContactsPositionCorrectionTechnique(split ? rp3d::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : rp3d::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    double gap = R0[s1] + R0[s2] - 0.008; double oy = off == 0 ? 0 : off == 1 ? 0.07 : 0.2; B15 a, b;
    if (order) { b = mk(pc, w, s2, gap, oy, mr, E2[ei], M2[mi]); a = mk(pc, w, s1, 0, 0, 1, E1[ei], M1[mi]); } else { a = mk(pc, w, s1, 0, 0, 1, E1[ei], M1[mi]); b = mk(pc, w, s2, gap, oy, mr, E2[ei], M2[mi]); }
    L15 L; L.first = a.b; w->setEventListener(&L);
    a.b->setLinearVelocity(Vector3((decimal)(vn / 2), (decimal)vt, 0)); b.b->setLinearVelocity(Vector3((decimal)(-vn / 2), 0, (decimal)(vt / 2)));
    if (spin == 1) a.b->setAngularVelocity(Vector3(0, 2, 5)); if (spin == 2) { a.b->setAngularVelocity(Vector3(3, 0, 0)); b.b->setAngularVelocity(Vector3(-4, 0, 0)); } if (spin == 3) { a.b->setAngularVelocity(Vector3(0, 4, 0)); b.b->setAngularVelocity(Vector3(0, -4, 3)); }
    a.read(); b.read(); double K0 = KE(a) + KE(b); bool spheres = s1 == 0 && s2 == 0; int touched = 0;
    for (int u = 0; u < (r.thorough ? 20 : 8); u++) { L.pts.clear(); B15 A = a, B = b; w->update((decimal)dt); r.transition(); a.read(); b.read(); double depth = 0; for (auto& p : L.pts) depth = std::max(depth, p.depth);
        V J = sc(sb(b.v, B.v), b.m), J1 = sc(sb(a.v, A.v), a.m); double scale = a.m * (ln(A.v) + ln(a.v)) + b.m * (ln(B.v) + ln(b.v)) + 1;
        MC_CHECK(r, ln(ad(J, J1)) < 2e-5 * scale, "momentum", "update %d: linear momentum changes by (%g,%g,%g)", u, J.x + J1.x, J.y + J1.y, J.z + J1.z);
        V X = sc(ad(sc(sb(a.x, A.x), a.m), sc(sb(b.x, B.x), b.m)), 1 / (a.m + b.m)), P = sc(ad(sc(a.v, a.m), sc(b.v, b.m)), dt / (a.m + b.m)); MC_CHECK(r, ln(sb(X, P)) < 2e-5, "centre-of-mass", "update %d: the common centre of mass moved by (%g,%g,%g), momentum says (%g,%g,%g)", u, X.x, X.y, X.z, P.x, P.y, P.z);
        if (L.pts.empty()) { MC_CHECK(r, ln(J) + ln(J1) < 1e-6 * scale && ln(sb(a.w, A.w)) < 1e-6 && ln(sb(b.w, B.w)) < 1e-6, "no-contact", "update %d: velocities change without any contact", u); continue; }
        touched++; V n(0, 0, 0); for (auto& p : L.pts) n = ad(n, p.n); n = sc(n, 1 / ln(n)); double Jn = dt2(J, n); V Jt = sb(J, sc(n, Jn)); bool flat = true; for (auto& p : L.pts) if (dt2(p.n, n) < 0.99999) flat = false;
        V dL = ad(ad(cr(A.x, J1), cr(B.x, J)), ad(sc(sb(a.w, A.w), a.I), sc(sb(b.w, B.w), b.I))); MC_CHECK(r, ln(dL) < 1e-4 * scale + 1.1 * depth * ln(Jt), "angular-momentum", "update %d: angular momentum changes by (%g,%g,%g); contact impulse (%g,%g,%g)", u, dL.x, dL.y, dL.z, J.x, J.y, J.z);
        if (flat) { MC_CHECK(r, Jn > -2e-5 * scale, "pull", "update %d: the contact pulls the bodies together: normal impulse %g", u, Jn);
            MC_CHECK(r, ln(Jt) <= 1.4143 * mu * Jn + 2e-4 * scale, "coulomb", "update %d: friction impulse %g with normal impulse %g and coefficient %g", u, ln(Jt), Jn, mu); }
        double bias = 0; if (!split) for (auto& p : L.pts) bias = std::max(bias, 0.2 / dt * std::max(0.0, p.depth - 0.01));
        auto rel = [&](const B15& q1, const B15& q2, const Pt& p) { return sb(ad(q2.v, cr(q2.w, sb(p.p2, B.x))), ad(q1.v, cr(q1.w, sb(p.p1, A.x)))); };
        double k0 = KE(A) + KE(B), k1 = KE(a) + KE(b); bool eOk = e == 0 || spheres || (mu == 0 && L.pts.size() == 1); if (eOk && bias == 0) MC_CHECK(r, k1 <= k0 * 1.02 + 2e-4 * (1 + K0), "energy", "update %d: kinetic energy rises from %g to %g (%zu contact points)", u, k0, k1, L.pts.size());
        if (L.pts.size() == 1) { Pt& p = L.pts[0]; V d0 = rel(A, B, p), d1 = rel(a, b, p); double n0 = dt2(d0, p.n), n1 = dt2(d1, p.n); double target = n0 < -thr ? -e * n0 : 0; if (u == 0 && std::fabs(n0 + thr) > 1e-3) { double want = n0 < 0 || target + bias > n0 ? target + bias : n0; if (mu == 0 || spheres) MC_CHECK(r, std::fabs(n1 - want) < 2e-3 * (1 + std::fabs(n0)), "restitution", "update %d: single contact approaching at %g leaves at %g, restitution %g says %g", u, -n0, n1, e, want); }
            V t0 = sb(d0, sc(p.n, n0)), t1 = sb(d1, sc(p.n, n1)); if (spheres) { MC_CHECK(r, dt2(t0, t1) >= -2e-3 * (1 + ln(t0)) && ln(t1) <= ln(t0) + 2e-3 * (1 + ln(t0)), "friction-direction", "update %d: sliding velocity (%g,%g,%g) becomes (%g,%g,%g)", u, t0.x, t0.y, t0.z, t1.x, t1.y, t1.z); 
                if (spheres && u == 0 && ln(t1) > 5e-3 * (1 + ln(t0))) MC_CHECK(r, ln(Jt) >= 0.99 * mu * Jn - 1e-3 * scale, "friction-weak", "update %d: still sliding at %g although friction impulse %g is below %g * %g", u, ln(t1), ln(Jt), mu, Jn); } }
        if (e == 0 && u == 0) for (auto& p : L.pts) { double n1 = dt2(rel(a, b, p), p.n), n0 = dt2(rel(A, B, p), p.n); MC_CHECK(r, n1 > -0.15 * (ln(A.v) + ln(B.v) + ln(A.w) + ln(B.w)) - 0.02, "approach", "update %d: bodies still approach at %g (before %g) at a contact point", u, -n1, -n0); }
    }
    if (off == 0 || (off == 1 && s1 < 3 && s2 < 3)) MC_CHECK(r, touched, "no-contact-at-all", "two overlapping bodies never touch"); mc::Hash h; for (auto* q : {&a, &b}) { h.d(q->x.x); h.d(q->v.x); h.d(q->v.y); h.d(q->w.z); } r.state(h.h); MC_CHECK(r, al.error.empty(), "allocator", "%s", al.error.c_str()); }

// overlapping bodies without velocity: pushed apart, without gaining velocity (split impulses) or more than the bias (Baumgarte)
static void overlapScene(Run& r) {
    int s1 = r.choose(5), s2 = r.choose(5); double mr = r.pick(std::vector<double>{1, 20}); bool split = r.flip(); double d = r.pick(std::vector<double>{0.005, 0.05, 0.15}); int type = r.choose(3); double off = r.choose(2) ? 0.04 : 0;
    MC_LOG(r, "%s - %s, overlap %g, masses 1 : %g, %s, second body %s", SN[s1], SN[s2], d, mr, split ? "split impulses" : "Baumgarte", type == 0 ? "dynamic" : type == 1 ? "static" : "kinematic");
    PageAllocator al; rp3d::PhysicsCommon pc(&al); auto* w = pc.createPhysicsWorld(st()); w->setContactsPositionCorrectionTechnique(split ? rp3d::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : rp3d::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    B15 a = mk(pc, w, s1, 0, 0, 1, .5, .3), b = mk(pc, w, s2, R0[s1] + R0[s2] - d, off, mr, .5, .3); if (type) b.b->setType(type == 1 ? BodyType::STATIC : BodyType::KINEMATIC); L15 L; L.first = a.b; w->setEventListener(&L); double last = 1e9, dt = 1.0 / 60;
    for (int u = 0; u < (r.thorough ? 120 : 30); u++) { L.pts.clear(); a.read(); b.read(); B15 A = a, B = b; w->update((decimal)dt); r.transition(); a.read(); b.read(); double depth = 0; for (auto& p : L.pts) depth = std::max(depth, p.depth); double bias = 0.2 / dt * std::max(0.0, d - 0.01);
        if (split) MC_CHECK(r, ln(a.v) + ln(b.v) < 1e-3 && ln(a.w) + ln(b.w) < 1e-3, "split-energy", "update %d: split impulses gave velocities %g %g / %g %g", u, ln(a.v), ln(b.v), ln(a.w), ln(b.w));
        else MC_CHECK(r, ln(sb(b.v, a.v)) < 3 * bias + 1e-3, "bias-energy", "update %d: relative velocity %g, correction bias %g", u, ln(sb(b.v, a.v)), bias);
        if (type) MC_CHECK(r, ln(sb(b.x, B.x)) == 0, "fixed-moved", "update %d: static or kinematic body moved", u);
        if (!L.pts.empty()) { MC_CHECK(r, depth <= last + 0.003, "deeper", "update %d: penetration grows from %g to %g", u, last, depth); last = depth; V n = L.pts[0].n; double sep = dt2(sb(sb(b.x, B.x), sb(a.x, A.x)), n); if (L.pts.size() == 1 && off == 0 && (s1 == 0 || s2 == 0) && split) MC_CHECK(r, std::fabs(sep - 0.2 * std::max(0.0, depth - 0.01)) < 1e-3, "correction", "update %d: depth %g corrected by %g", u, depth, sep); } }
    L.pts.clear(); w->update((decimal)dt); double depth = 0; for (auto& p : L.pts) depth = std::max(depth, p.depth); if (off == 0) MC_CHECK(r, depth < 0.05, "not-separated", "penetration is still %g", depth); mc::Hash h; h.d(a.x.x); h.d(b.x.x); h.d(depth); r.state(h.h); }

struct Floor { rp3d::CollisionShape* s; Transform t; };
static float HH[25] = {0}; static float TV[] = {-12, 0, -12, 12, 0, -12, 12, 0, 12, -12, 0, 12}; static unsigned TI[] = {0, 2, 1, 0, 3, 2};
static Floor mkFloor(rp3d::PhysicsCommon& pc, int k) { Floor f; std::vector<rp3d::Message> msg;
    if (k == 0) { f.s = pc.createBoxShape(Vector3(12, 1, 12)); f.t = AT(0, -1, 0); }
    else if (k == 1) { f.s = pc.createHeightFieldShape(pc.createHeightField(5, 5, HH, rp3d::HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, msg), Vector3(6, 1, 6)); f.t = AT(0.7, 0, 0.3); }
    else { rp3d::TriangleVertexArray a(4, TV, 12, 2, TI, 12, rp3d::TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, rp3d::TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); f.s = pc.createConcaveMeshShape(pc.createTriangleMesh(a, msg)); f.t = AT(0, 0, 0); } return f; }
// bodies resting on a fixed support
static void restScene(Run& r) {
    int fl = r.choose(3), s = r.choose(3), n = 1 + r.choose(r.thorough ? 3 : 2); bool split = r.flip(), order = r.flip(), sleeping = r.flip(); double m = r.pick(std::vector<double>{1, 30}), e = r.choose(2) ? .5 : 0, mu = r.choose(2) ? .6 : 0; int fix = r.choose(2); double g = r.choose(2) ? 9.81 : 30; int N = r.thorough ? 400 : 150;
    if (s != 1 && n > 1) r.prune(); if (n > 1 && m > 1) m = 3; if (n == 2 && m > 1 && !split && g > 10) r.prune();   // a heavy cube on a light one under strong gravity: the Baumgarte bias keeps it jumping by a few millimetres
    if (n > 2) { m = 1; g = 9.81; } if (n > 1 && mu == 0) r.prune();
    MC_LOG(r, "%d %s on %s (%s), %s, %s first, masses %g, restitution %g, friction %g, sleeping %d, g %g", n, SN[s], fl == 0 ? "box" : fl == 1 ? "height field" : "mesh", fix ? "kinematic" : "static", split ? "split" : "Baumgarte", order ? "floor" : "bodies", m, e, mu, sleeping, g);
    PageAllocator al; rp3d::PhysicsCommon pc(&al); auto* w = pc.createPhysicsWorld(st(sleeping, g)); w->setContactsPositionCorrectionTechnique(split ? rp3d::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : rp3d::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    rp3d::RigidBody* f = nullptr; auto mkF = [&] { Floor q = mkFloor(pc, fl); f = w->createRigidBody(q.t); auto* c = f->addCollider(q.s, Transform::identity()); c->getMaterial().setBounciness((decimal)e); c->getMaterial().setFrictionCoefficient((decimal)mu); f->setType(fix ? BodyType::KINEMATIC : BodyType::STATIC); };
    LIE = true; if (order) mkF(); std::vector<B15> a; double half = s == 2 ? .4 : .5; for (int i = 0; i < n; i++) a.push_back(mk(pc, w, s, 0.9, half + i * 2 * half - 0.002 * i, i ? m : 1, e, mu)); if (!order) mkF(); double h0 = half;
    double E0 = 0; for (auto& q : a) E0 += q.m * g * q.x.y; double y0 = a[0].x.y;
    for (int u = 0; u < N; u++) { w->update(decimal(1.0 / 60)); r.transition(); double E = 0; for (int i = 0; i < n; i++) { auto& q = a[i]; q.read(); double want = h0 + i * (2 * half - .002); MC_CHECK(r, finite(q.b->getTransform().getPosition()), "nan", "body %d is nowhere", i);
            MC_CHECK(r, q.x.y > want - 0.025 * (i + 1) * (1 + (n > 1 ? m / 8 : 0)), "sinks", "update %d: body %d is at height %g, rests at %g", u, i, q.x.y, want); MC_CHECK(r, q.x.y < want + 0.03, "rises", "update %d: body %d is at height %g, rests at %g", u, i, q.x.y, want);
            if (mu > 0 && (n == 1 || m < 2)) MC_CHECK(r, std::fabs(q.x.x - 0.9) + std::fabs(q.x.z) < 0.05, "drifts", "update %d: body %d drifted to (%g, %g)", u, i, q.x.x, q.x.z);
            if (u > N - 20) MC_CHECK(r, ln(q.v) < 0.1 && (mu == 0 || ln(q.w) < 0.3), "restless", "update %d: body %d still has velocity %g / %g", u, i, ln(q.v), ln(q.w)); E += q.m * g * q.x.y + KE(q); }
        if (split) MC_CHECK(r, E <= E0 + 0.02 * n * m * g, "energy", "update %d: mechanical energy %g, at the start %g", u, E, E0); }
    (void)y0; mc::Hash h; for (auto& q : a) { h.d(q.x.y); h.d(q.x.x); } r.state(h.h); MC_CHECK(r, al.error.empty(), "allocator", "%s", al.error.c_str()); }

// sliding, spinning and rolling on a horizontal or inclined static support
static void slideScene(Run& r) {
    int fl = r.choose(3), mode = r.choose(4); double m = r.pick(std::vector<double>{1, 25}); static const double MB[] = {.3, 1, .1, .4, 0}, MF[] = {.3, .25, .9, 0, 0}; int mi = r.choose(5); double mu = std::sqrt(MB[mi] * MF[mi]); int dir = r.choose(8); double v0 = r.pick(std::vector<double>{0.8, 3}); bool split = r.flip(), order = r.flip(); double g = 10, dt = 1.0 / 60;
    if (mode == 2 && dir > 1) r.prune(); if (mode == 3 && (fl != 0 || v0 < 1)) r.prune();
    static const char* MN[] = {"cube slides", "ball slides and rolls", "cube spins", "cube on a slope"}; MC_LOG(r, "%s on %s, mass %g, friction %g (%g,%g), direction %d, speed %g, %s, %s first", MN[mode], fl == 0 ? "box" : fl == 1 ? "height field" : "mesh", m, mu, MB[mi], MF[mi], dir, v0, split ? "split" : "Baumgarte", order ? "floor" : "body");
    PageAllocator al; rp3d::PhysicsCommon pc(&al); auto* w = pc.createPhysicsWorld(st(false, g)); w->setContactsPositionCorrectionTechnique(split ? rp3d::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : rp3d::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    double slope = mode == 3 ? 0.08 + 0.12 * dir : 0; Quaternion Q(0, 0, (decimal)std::sin(-slope / 2), (decimal)std::cos(slope / 2)); rp3d::RigidBody* f = nullptr;
    auto mkF = [&] { Floor q = mkFloor(pc, fl); Vector3 p = Q * q.t.getPosition(); f = w->createRigidBody(Transform(p, Q)); auto* c = f->addCollider(q.s, Transform::identity()); c->getMaterial().setBounciness(0); c->getMaterial().setFrictionCoefficient((decimal)MF[mi]); f->setType(BodyType::STATIC); };
    auto mkB = [&] { B15 b; Vector3 p = Q * Vector3(mode == 3 ? decimal(-5) : 0, decimal(.4995), 0); bool ball = mode == 1; b.b = w->createRigidBody(Transform(p, Q)); auto* c = b.b->addCollider(ball ? (rp3d::CollisionShape*)pc.createSphereShape(decimal(.5)) : (rp3d::CollisionShape*)pc.createBoxShape(Vector3(1, decimal(.5), 1)), Transform::identity()); c->getMaterial().setBounciness(0); c->getMaterial().setFrictionCoefficient((decimal)MB[mi]); b.m = m; b.I = ball ? .1 * m : m; b.b->setMass((decimal)m); b.b->setLocalInertiaTensor(Vector3((decimal)b.I, (decimal)b.I, (decimal)b.I)); return b; };
    B15 b; if (order) { mkF(); b = mkB(); } else { b = mkB(); mkF(); } double th = dir * M_PI / 4; V d(std::cos(th), 0, std::sin(th)); L15 L; L.first = b.b; w->setEventListener(&L);
    for (int i = 0; i < 3; i++) { b.b->setLinearVelocity(Vector3(0, 0, 0)); b.b->setAngularVelocity(Vector3(0, 0, 0)); w->update((decimal)dt); }   // settle
    if (mode == 2) b.b->setAngularVelocity(Vector3(0, (decimal)(dir ? -v0 : v0), 0)); else if (mode < 2) b.b->setLinearVelocity(Vector3((decimal)(v0 * d.x), 0, (decimal)(v0 * d.z))); else { b.b->setLinearVelocity(Vector3(0, 0, 0)); b.b->setAngularVelocity(Vector3(0, 0, 0)); }
    b.read(); V x0 = b.x; double lost = 0; int N = r.thorough ? 90 : 45;
    for (int u = 0; u < N; u++) { B15 B = b; L.pts.clear(); w->update((decimal)dt); r.transition(); b.read(); V side(-d.z, 0, d.x);
        if (mode == 0) { double s0 = dt2(B.v, d), s1 = dt2(b.v, d); MC_CHECK(r, s1 > -0.01 && s1 <= s0 + 0.01, "cube-speed", "update %d: sliding speed goes from %g to %g", u, s0, s1); MC_CHECK(r, std::fabs(dt2(b.v, side)) < 0.05 && ln(b.w) < 0.1, "cube-direction", "update %d: sideways velocity %g, spin %g", u, dt2(b.v, side), ln(b.w)); }
        if (mode == 1) { double s1 = dt2(b.v, d), wr = dt2(b.w, V(d.z, 0, -d.x)); MC_CHECK(r, s1 <= dt2(B.v, d) + 0.01 * v0 && s1 >= 5.0 / 7 * v0 - 0.02 * v0, "roll-speed", "update %d: ball started at %g moves at %g", u, v0, s1); MC_CHECK(r, wr * .5 <= s1 + 0.01 * v0 && wr > -0.12 * v0, "roll-spin", "update %d: speed %g, spin * radius %g", u, s1, wr * .5); MC_CHECK(r, std::fabs(dt2(b.v, side)) < 0.01 * v0, "roll-direction", "update %d: sideways velocity %g", u, dt2(b.v, side));
            MC_CHECK(r, std::fabs(s1 + 0.1 / .5 * wr - v0) < 0.03 * v0, "roll-momentum", "update %d: v + I w / (m r) = %g, started with %g", u, s1 + 0.2 * wr, v0); double lose = dt2(B.v, d) - s1; MC_CHECK(r, lose <= 2.1 * mu * g * dt + 0.01 * v0 && v0 - s1 <= 1.1 * mu * g * (u + 2) * dt + 0.01 * v0, "roll-friction", "update %d: loses %g of speed in a step and %g in all, Coulomb allows %g a step on average", u, lose, v0 - s1, mu * g * dt); }   // a ball that hops for one step makes up for it in the next
        if (mode == 2) { double s0 = std::fabs(B.w.y), s1 = std::fabs(b.w.y); MC_CHECK(r, s1 <= s0 + 1e-3 && B.w.y * b.w.y > -1e-3, "spin", "update %d: spin goes from %g to %g", u, B.w.y, b.w.y); MC_CHECK(r, (s0 - s1) * b.I <= 1.1 * mu * m * g * dt + 1e-3 * m, "twist-limit", "update %d: friction takes %g of angular momentum per step; the friction force can take %g", u, (s0 - s1) * b.I, mu * m * g * dt); MC_CHECK(r, ln(sb(b.x, x0)) < 0.02, "spin-walk", "update %d: a body spinning on the spot moved by %g", u, ln(sb(b.x, x0))); }
        if (mode == 3) { V down(std::cos(slope), -std::sin(slope), 0); double s1 = dt2(b.v, down), want = g * (std::sin(slope) - mu * std::cos(slope)) * (u + 1) * dt; if (std::tan(slope) < 0.9 * mu) MC_CHECK(r, std::fabs(s1) < 0.03, "slope-stick", "update %d: slides at %g on a slope of %g below the friction angle (%g)", u, s1, std::tan(slope), mu); else if (std::tan(slope) > 1.1 * mu && slope < 0.75) MC_CHECK(r, std::fabs(s1 - want) < 0.05 + 0.06 * want, "slope-slide", "update %d: slides at %g, expected %g (slope %g, friction %g)", u, s1, want, std::tan(slope), mu); } }
    if (mode == 0) { double s1 = dt2(b.v, d), want = std::max(0.0, v0 - mu * g * N * dt); MC_CHECK(r, std::fabs(s1 - want) < 0.05 * v0 + 0.02, "cube-friction", "after %d updates the cube slides at %g; friction %g leaves %g", N, s1, mu, want); }
    if (mode == 1) { double s1 = dt2(b.v, d), want = std::max(5.0 / 7 * v0, v0 - mu * g * N * dt); MC_CHECK(r, std::fabs(s1 - want) < 0.03 * v0, "ball-friction", "after %d updates the ball moves at %g, friction %g leaves %g", N, s1, mu, want); }
    (void)lost; mc::Hash h; h.d(b.x.x); h.d(b.x.z); h.d(b.w.y); r.state(h.h); MC_CHECK(r, al.error.empty(), "allocator", "%s", al.error.c_str()); }
// prisms and yawed cubes resting on floors and on smaller or shifted pedestals, their weight well inside the common area: they stay
static void supportScene(Run& r) {
    int s = r.choose(5); static const int NS[] = {4, 3, 5, 6, 8}; int n = NS[s]; int sup = r.choose(5); double yaw = r.choose(6) * 0.26; int dir = r.choose(sup < 2 ? 1 : 8); bool order = r.flip(), split = r.flip(); double ecc = sup < 2 ? 0 : r.pick(std::vector<double>{.12, .22}); int N = r.thorough ? 200 : 100;
    if (!r.thorough && n < 5 && dir % 2) r.prune();
    static const char* PN[] = {"a box floor", "a mesh floor", "a cube pedestal", "a flat pedestal", "an octagonal pedestal"}; MC_LOG(r, "prism with %d sides, yaw %g, on %s, shifted in direction %d, %s first, %s", n, yaw, PN[sup], dir, order ? "support" : "prism", split ? "split" : "Baumgarte");
    PageAllocator al; rp3d::PhysicsCommon pc(&al); auto* w = pc.createPhysicsWorld(st(false, 9.81)); w->setContactsPositionCorrectionTechnique(split ? rp3d::ContactsPositionCorrectionTechnique::SPLIT_IMPULSES : rp3d::ContactsPositionCorrectionTechnique::BAUMGARTE_CONTACTS);
    auto mkF = [&] { Floor q; if (sup == 0) q = mkFloor(pc, 0); else if (sup == 1) q = mkFloor(pc, 2); else if (sup == 2) { q.s = pc.createBoxShape(Vector3(decimal(.5), decimal(.5), decimal(.5))); q.t = AT(0, -.5, 0); } else if (sup == 3) { q.s = pc.createBoxShape(Vector3(decimal(.6), decimal(.1), decimal(.45))); q.t = AT(0, -.1, 0, axisAngle(0, 1, 0, .3)); } else { q.s = makeShape(pc, S3("octagon", meshPrism(8, .6, .4))); q.t = AT(0, -.2, 0); } auto* f = w->createRigidBody(q.t); auto* c = f->addCollider(q.s, Transform::identity()); c->getMaterial().setBounciness(0); c->getMaterial().setFrictionCoefficient(decimal(.7)); f->setType(BodyType::STATIC); };
    double th = dir * M_PI / 4 + .1, x0 = ecc * std::cos(th), z0 = ecc * std::sin(th); rp3d::RigidBody* b = nullptr;
    auto mkB = [&] { rp3d::CollisionShape* q = n == 4 ? (rp3d::CollisionShape*)pc.createBoxShape(Vector3(decimal(.5), decimal(.3), decimal(.5))) : makeShape(pc, S3("prism", meshPrism(n, n == 3 ? .8 : .65, .6))); b = w->createRigidBody(AT(x0, .299, z0, axisAngle(0, 1, 0, yaw))); auto* c = b->addCollider(q, Transform::identity()); c->getMaterial().setBounciness(0); c->getMaterial().setFrictionCoefficient(decimal(.7)); b->setMass(2); b->setLocalCenterOfMass(Vector3(0, 0, 0)); b->setLocalInertiaTensor(Vector3(decimal(.2), decimal(.25), decimal(.2))); };
    if (order) { mkF(); mkB(); } else { mkB(); mkF(); } Vector3 front = b->getTransform().getOrientation() * Vector3(1, 0, 0); double worst = 0, moved = 0;
    for (int u = 0; u < N; u++) { w->update(decimal(1.0 / 60)); r.transition(); V p = vv(b->getTransform().getPosition()); Vector3 up = b->getTransform().getOrientation() * Vector3(0, 1, 0); Vector3 fr = b->getTransform().getOrientation() * Vector3(1, 0, 0); double tilt = std::sqrt(up.x * up.x + up.z * up.z), mv = std::hypot(p.x - x0, p.z - z0) + std::fabs(p.y - .299); worst = std::max(worst, tilt); moved = std::max(moved, mv);
        MC_CHECK(r, finite(b->getTransform().getPosition()) && tilt < 0.002, "tips", "update %d: the prism is tilted by %g although its weight is supported", u, tilt); MC_CHECK(r, mv < 0.01, "walks", "update %d: the prism moved by %g", u, mv); MC_CHECK(r, (fr - front).length() < 0.01, "turns", "update %d: the prism turned by %g", u, (double)(fr - front).length()); }
    if (getenv("MC_WORST")) fprintf(stderr, "WORST %g %g\n", worst, moved);
    mc::Hash h; h.d(b->getTransform().getPosition().y); h.d(b->getTransform().getOrientation().x); r.state(h.h); MC_CHECK(r, al.error.empty(), "allocator", "%s", al.error.c_str()); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"pair", pairScene, "two free bodies touching by 8 mm: 5 x 4 shapes (thorough all), mass ratios 1/8/100, 4 restitution pairs, 4 friction pairs, 3 approach and 3 sliding velocities, 4 spins, 3 offsets, both creation orders, both correction techniques, 3 restitution thresholds for spheres; 8 updates each (thorough 20, two time steps)"}); s.push_back({"overlap", overlapScene, "two overlapping bodies without velocity: all pairs of 5 shapes, 3 depths, 2 mass ratios, second body dynamic/static/kinematic, both techniques; 30 updates (thorough 120)"}); s.push_back({"rest", restScene, "cubes (1-2, thorough 3 stacked), balls and lying capsules on a static or kinematic box, height field or triangle mesh: masses, gravity, materials, creation order, sleeping, both techniques; 150 updates (thorough 400)"}); s.push_back({"slide", slideScene, "cube sliding, ball sliding into rolling, cube spinning on the spot and cube on 8 slopes: 3 supports, 5 friction pairs, 8 directions, 2 speeds, 2 masses, both techniques and creation orders; 45 updates (thorough 90)"});
    s.push_back({"support", supportScene, "boxes and prisms with 3, 5, 6, 8 sides (contact areas of up to 8 corners, reduced to 4 points by the library) lying on a box or mesh floor, or shifted in 8 directions on 3 smaller pedestals with their weight inside the common area; 6 yaws, 3 shifts, both creation orders and techniques; 100 updates (thorough 200)"});
    return mc::main(c, v, propertyId("C15"), s, "angular momentum is checked for bodies with isotropic inertia (the integrator has no gyroscopic term); kinetic energy with restitution and friction together only for spheres; Baumgarte correction may add the documented bias velocity"); }
