// C20 / C21: ray casts, point tests and bounds of every convex shape, under every transform and API history,
// against double-precision geometry.
#include "cat.h"
using namespace geo;
static std::vector<Spec> specs(bool big) {
    std::vector<Spec> s = {S0(.5), S1(.5, 1), S1(.3, .2), S2(.5, .5, .5), S2(.2, 1, 1.6), S3("tetra", meshTetra(.8)), S3("octa", meshOcta(.6, .9, .4)), S3("wedge", meshWedge()), S3("wedge", meshWedge(), V(2, .5, 1.5)), S3("tetra", meshTetra(.8, V(.3, .1, -.2)), V(.5, 1.5, 1)), S3("prism5", meshPrism(5, .7, 1.2), V(1, 2, .6))};
    if (big) { for (auto x : {S0(.1), S0(4), S1(.1, 3), S1(2, .5), S1(.12, .1), S2(3, .1, 2), S2(.12, .13, .14), S3("meshbox", meshBox(.5, .3, .8)), S3("prism7", meshPrism(7, .9, .5)), S3("octa", meshOcta(.6, .9, .4), V(3, 1, .3)), S3("tetra off origin", meshTetra(.5, V(1.5, 0, 0))), S0(.01), S1(.01, .03), S2(.01, .02, .005), S3("tiny octa", meshOcta(.02, .03, .015)), S3("octa", meshOcta(.6, .9, .4), V(.02, .02, .02))}) s.push_back(x); }
    return s; }
static std::vector<Transform> bodyT() { auto q = rotations(); return {Transform::identity(), Transform(Vector3(3, -2, 1), q[1]), Transform(Vector3(-1, decimal(.5), 4), q[2]), Transform(Vector3(0, 0, 0), q[3]), Transform(Vector3(10, 5, -7), q[4])}; }
static std::vector<Transform> localT() { auto q = rotations(); return {Transform::identity(), Transform(Vector3(decimal(.4), decimal(-1.1), decimal(.2)), q[5]), Transform(Vector3(0, decimal(.7), 0), q[2])}; }
struct Rig { PageAllocator al; rp3d::PhysicsCommon pc{&al}; rp3d::PhysicsWorld* w; rp3d::RigidBody* b; rp3d::Collider* c; rp3d::CollisionShape* sh; std::string why;
    Rig() { rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, 0, 0); w = pc.createPhysicsWorld(s); } };
// the placement is reached through one of several histories of API calls; returns false when the history makes no sense for this pair
static const char* HIST[] = {"create body at T, addCollider(local)", "create at identity, addCollider(local), setTransform(T)", "addCollider(identity), setTransform(T), setLocalToBodyTransform(local)", "addCollider(identity), setLocalToBodyTransform(local), update, setTransform(T)", "create with other size, addCollider, update, resize, setTransform(T)", "static body, setTransform(T), setIsActive(false), setIsActive(true)", "create at T, second collider added and removed", "setTransform(elsewhere), update, asleep, setTransform(T)", "kinematic, setTransform(T), setType(dynamic)", "create with other size at T, addCollider(local), resize"};
static void build(Rig& g, const Spec& s, const Transform& T, const Transform& L, int h) {
    bool other = h == 4 || h == 9; g.sh = makeShape(g.pc, s, other ? 0 : 0); Spec big = s; (void)big;
    auto create = [&](const Transform& t) { g.b = g.w->createRigidBody(t); };
    auto resizeSetup = [&]() { // shrink/grow first, then come back to the wanted size with the setter after the collider exists
        switch (s.kind) { case 0: ((rp3d::SphereShape*)g.sh)->setRadius(decimal(1.7)); break; case 1: ((rp3d::CapsuleShape*)g.sh)->setRadius(decimal(.9)); ((rp3d::CapsuleShape*)g.sh)->setHeight(decimal(.8)); break; case 2: ((rp3d::BoxShape*)g.sh)->setHalfExtents(Vector3(decimal(.9), 1, decimal(.4))); break; default: ((rp3d::ConvexMeshShape*)g.sh)->setScale(Vector3(decimal(.7), 2, 1)); } };
    auto resize = [&]() { switch (s.kind) { case 0: ((rp3d::SphereShape*)g.sh)->setRadius(decimal(s.a)); break; case 1: ((rp3d::CapsuleShape*)g.sh)->setRadius(decimal(s.a)); ((rp3d::CapsuleShape*)g.sh)->setHeight(decimal(s.b)); break; case 2: ((rp3d::BoxShape*)g.sh)->setHalfExtents(Vector3(decimal(s.a), decimal(s.b), decimal(s.c))); break; default: ((rp3d::ConvexMeshShape*)g.sh)->setScale(s.scale.r()); } };
    if (other) resizeSetup();
    Transform id = Transform::identity(), away(Vector3(20, 20, 20), axisAngle(1, 0, 0, 1));
    switch (h) {
    case 0: create(T); g.c = g.b->addCollider(g.sh, L); break;
    case 1: create(id); g.c = g.b->addCollider(g.sh, L); g.b->setTransform(T); break;
    case 2: create(id); g.c = g.b->addCollider(g.sh, id); g.b->setTransform(T); g.c->setLocalToBodyTransform(L); break;
    case 3: create(id); g.b->setType(rp3d::BodyType::STATIC); g.c = g.b->addCollider(g.sh, id); g.c->setLocalToBodyTransform(L); g.w->update(decimal(1 / 60.)); g.b->setTransform(T); break;
    case 4: create(id); g.c = g.b->addCollider(g.sh, L); g.w->update(decimal(1 / 60.)); resize(); g.b->setTransform(T); break;
    case 5: create(id); g.b->setType(rp3d::BodyType::STATIC); g.c = g.b->addCollider(g.sh, L); g.b->setTransform(T); g.b->setIsActive(false); g.b->setIsActive(true); break;
    case 6: { create(T); auto* x = g.b->addCollider(g.pc.createSphereShape(1), id); g.c = g.b->addCollider(g.sh, L); g.b->removeCollider(x); break; }
    case 7: create(id); g.c = g.b->addCollider(g.sh, L); g.b->setTransform(away); g.w->update(decimal(1 / 60.)); g.b->setIsSleeping(true); g.b->setTransform(T); break;
    case 8: create(id); g.b->setType(rp3d::BodyType::KINEMATIC); g.c = g.b->addCollider(g.sh, L); g.b->setTransform(T); g.b->setType(rp3d::BodyType::DYNAMIC); break;
    case 9: create(T); g.c = g.b->addCollider(g.sh, L); resize(); break; }
}
static const int NH = 10;
static void checkRay(Run& r, Rig& g, const Solid& ws, const Spec& s, double size, const V& a, const V& b, double frac, bool bodyToo) {
    double tol = 2e-3 * size + 4e-6 * (a.len() + b.len());
    if (pointSolid(ws, a) < 3 * tol) return; double len = (b - a).len(); if (len < 1e-3 * std::min(1.0, size)) return;
    double tin = rayOff(ws, -tol, a, b), tout = rayOff(ws, tol, a, b); double tf = 1e-4 + tol / len * .2;
    rp3d::Ray ray(a.r(), b.r(), (decimal)frac); rp3d::RaycastInfo info; bool hit = g.c->raycast(ray, info); r.checked();
    if (tin >= 0 && tin < frac - tf && !hit) r.fail("ray-missed", "%s: the ray from %s to %s (max fraction %g) enters the solid at fraction %g but no hit is reported", s.name.c_str(), str(a).c_str(), str(b).c_str(), frac, tin);
    if (hit && (tout < 0 || tout > frac + tf)) r.fail("ray-false", "%s: the ray from %s to %s (max fraction %g) does not touch the solid within its range (entry %g), but a hit is reported at %g", s.name.c_str(), str(a).c_str(), str(b).c_str(), frac, tout, (double)info.hitFraction);
    if (hit) {
        double f = info.hitFraction; V p(info.worldPoint), n(info.worldNormal);
        if (!(f >= 0 && f <= frac + 1e-6)) r.fail("ray-fraction", "%s: hit fraction %g outside [0,%g]", s.name.c_str(), f, frac);
        if (f < tout - tf || (tin >= 0 && f > tin + tf)) r.fail("ray-fraction", "%s: ray %s -> %s: hit fraction %g, the solid is entered at %g..%g", s.name.c_str(), str(a).c_str(), str(b).c_str(), f, tout, tin);
        if ((p - (a + (b - a) * f)).len() > tol) r.fail("ray-point", "%s: ray %s -> %s: worldPoint %s is not the point at fraction %g", s.name.c_str(), str(a).c_str(), str(b).c_str(), str(p).c_str(), f);
        if (std::fabs(pointSolid(ws, p)) > 2 * tol) r.fail("ray-surface", "%s: ray %s -> %s: worldPoint %s is %g from the surface", s.name.c_str(), str(a).c_str(), str(b).c_str(), str(p).c_str(), pointSolid(ws, p));
        if (std::fabs(n.len() - 1) > 1e-3) r.fail("ray-normal", "%s: normal of length %g", s.name.c_str(), n.len());
        if (!normalOk(ws, p, n, 2 * tol, .02 + 2 * tol / (ws.f.empty() ? ws.radius : 1e9))) r.fail("ray-normal", "%s: ray %s -> %s hits at %s with normal %s, which is not the outward normal there", s.name.c_str(), str(a).c_str(), str(b).c_str(), str(p).c_str(), str(n).c_str());
        if (n.dot(b - a) > .02 * len) r.fail("ray-normal", "%s: normal %s points along the ray", s.name.c_str(), str(n).c_str());
        if (info.body != g.b || info.collider != g.c) r.fail("ray-target", "%s: body/collider of the hit are wrong", s.name.c_str()); }
    if (bodyToo) { rp3d::RaycastInfo i2; bool h2 = g.b->raycast(ray, i2); if (h2 != hit || (hit && (i2.hitFraction != info.hitFraction || !(i2.worldPoint == info.worldPoint) || i2.collider != info.collider))) r.fail("ray-body", "%s: Body::raycast and Collider::raycast disagree on %s -> %s", s.name.c_str(), str(a).c_str(), str(b).c_str()); }
}
static double sizeOf(const Solid& s, V* lo = nullptr, V* hi = nullptr) { V l, h; bounds(s, l, h); if (lo) *lo = l; if (hi) *hi = h; return std::max({h.x - l.x, h.y - l.y, h.z - l.z}); }
static void rays(Run& r) {
    auto sp = specs(true); auto bt = bodyT(); auto lt = localT(); const Spec& s = sp[r.choose((int)sp.size())]; int h = r.choose(NH); int ti = r.choose((int)bt.size()), li = r.choose((int)lt.size());
    int deep = r.thorough;
    MC_LOG(r, "%s, %s, body transform %d, local transform %d", s.name.c_str(), HIST[h], ti, li);
    Rig g; build(g, s, bt[ti], lt[li], h); Solid local = solidOf(s); geo::T wt = geo::T(g.b->getTransform()) * geo::T(lt[li]); Solid ws = place(local, wt); V lo, hi; double size = sizeOf(local, &lo, &hi);
    r.transition(); mc::Hash hs; hs.s(s.name.c_str()); hs.u(h * 100 + ti * 10 + li); r.state(hs.h);
    V c = (lo + hi) * .5, e = (hi - lo) * .5; double fr[] = {1, .37};
    // start points around the shape, targets through it (positions in units of the half extents; the zeros give axis-parallel rays)
    std::vector<double> A = deep ? std::vector<double>{-3, -1.15, -.55, 0, .3, 1.2, 2.5} : std::vector<double>{-2.6, -1.1, 0, .4, 1.4}, Bv = deep ? std::vector<double>{-1.7, -.8, -.3, 0, .5, .95, 1.6} : std::vector<double>{-1.3, -.6, 0, .9};
    int k = 0; for (double ax : A) for (double ay : A) for (double az : A) { V a = c + V(ax * e.x, ay * e.y, az * e.z); if (pointSolid(local, a) <= 0) continue; for (double bx : Bv) for (double by : Bv) for (double bz : Bv) { V b = c + V(bx * e.x, by * e.y, bz * e.z); V wa = wt * a, wb = wt * b;
        checkRay(r, g, ws, s, size, V(wa.r()), V(wb.r()), fr[(k++) % 2], (k % 7) == 0); if (k % 3 == 0) checkRay(r, g, ws, s, size, V(wa.r()), V((wa + (wb - wa) * 3).r()), 1, false); if (k % 5 == 0) checkRay(r, g, ws, s, size, V((wb + (wa - wb) * 6).r()), V(wb.r()), 1, false);
        if (k % 7 == 3) { V u = (wa - wb).unit(); checkRay(r, g, ws, s, size, V((wb + u * (size * (k % 2 ? 900 : 250))).r()), V((wb - u * (size * 3)).r()), 1, false); } } }
}
// a compound body: the nearest hit over its colliders
static void compound(Run& r) {
    auto sp = specs(true); int i = r.choose((int)sp.size()), j = r.choose((int)sp.size()), o = r.choose(3), ti = r.choose(5); auto bt = bodyT();
    Rig g; build(g, sp[i], bt[ti], Transform::identity(), 1); Transform L2(Vector3(decimal(o == 0 ? 1.3 : 0), decimal(o == 1 ? -.9 : 0), decimal(o == 2 ? 2.2 : .1)), rotations()[2]); auto* s2 = makeShape(g.pc, sp[j]); auto* c2 = g.b->addCollider(s2, L2); if (r.flip()) { g.b->removeCollider(g.c); g.c = g.b->addCollider(g.sh, Transform::identity()); }
    r.transition(); MC_LOG(r, "%s + %s offset %d", sp[i].name.c_str(), sp[j].name.c_str(), o); geo::T B(g.b->getTransform());
    for (int k = 0; k < 6 * 9; k++) { V d = V(k % 6 == 0, k % 6 == 1, k % 6 == 2) - V(k % 6 == 3, k % 6 == 4, k % 6 == 5); V off((k / 6 % 3 - 1) * .35 + .02, (k / 18 - 1) * .3 + .03, .11); V a = B * (off + d * 12), b = B * (off - d * 12); rp3d::Ray ray(a.r(), b.r());
        rp3d::RaycastInfo i1, i2, ib; bool h1 = g.c->raycast(ray, i1), h2 = c2->raycast(ray, i2), hb = g.b->raycast(ray, ib); r.checked();
        if (hb != (h1 || h2)) r.fail("ray-compound", "Body::raycast %d, colliders %d %d", hb, h1, h2);
        if (hb) { rp3d::RaycastInfo& w = !h2 || (h1 && i1.hitFraction <= i2.hitFraction) ? i1 : i2; if (ib.hitFraction != w.hitFraction || ((h1 && h2 && i1.hitFraction == i2.hitFraction) ? false : ib.collider != w.collider) || !(ib.worldPoint == w.worldPoint)) r.fail("ray-compound", "Body::raycast returns fraction %g, nearest collider hit is %g", (double)ib.hitFraction, (double)w.hitFraction); } }
    r.state(i * 100000 + j * 100 + o * 10 + ti);
}
// ---- C21
static void points(Run& r) {
    auto sp = specs(true); auto bt = bodyT(); auto lt = localT(); const Spec& s = sp[r.choose((int)sp.size())]; int h = r.choose(NH), ti = r.choose((int)bt.size()), li = r.choose((int)lt.size());
    MC_LOG(r, "%s, %s, body transform %d, local transform %d", s.name.c_str(), HIST[h], ti, li);
    Rig g; build(g, s, bt[ti], lt[li], h); Solid local = solidOf(s); geo::T wt = geo::T(g.b->getTransform()) * geo::T(lt[li]); Solid ws = place(local, wt); V lo, hi; double size = sizeOf(local, &lo, &hi); r.transition(); mc::Hash hs; hs.s(s.name.c_str()); hs.u(h * 100 + ti * 10 + li); r.state(hs.h);
    double tol = 1e-3 * size + 1e-5 * wt.p.len(); V c = (lo + hi) * .5, e = (hi - lo) * .5; int n = r.thorough ? 15 : 9;
    for (int x = 0; x < n; x++) for (int y = 0; y < n; y++) for (int z = 0; z < n; z++) { auto f = [&](int i) { return -1.2 + 2.4 * i / (n - 1); }; V p = V((wt * (c + V(f(x) * e.x, f(y) * e.y, f(z) * e.z))).r()); double d = pointSolid(ws, p); if (std::fabs(d) < tol) continue; r.checked();
        bool in = g.c->testPointInside(p.r()), inb = g.b->testPointInside(p.r()); if (in != (d < 0) || inb != in) r.fail("point-inside", "%s (%s): point %s has signed distance %g to the solid; Collider::testPointInside=%d Body::testPointInside=%d", s.name.c_str(), HIST[h], str(p).c_str(), d, in, inb); }
    // bounds: contain the solid; equal the bounds of the (rotated) local box; tight when unrotated, and always for spheres and boxes
    V wl, wh; bounds(ws, wl, wh); Solid lb = box(e.x, e.y, e.z); for (auto& p : lb.v) p = p + c; lb = place(lb, wt); V bl, bh; if (s.kind == 0) { bl = wl; bh = wh; } else bounds(lb, bl, bh);
    auto test = [&](const char* what, const rp3d::AABB& bb) { V a(bb.getMin()), b(bb.getMax()); r.checked(); for (int k = 0; k < 3; k++) { if (a[k] > wl[k] + tol || b[k] < wh[k] - tol) r.fail("bounds", "%s (%s): %s [%s,%s] does not contain the solid [%s,%s]", s.name.c_str(), HIST[h], what, str(a).c_str(), str(b).c_str(), str(wl).c_str(), str(wh).c_str()); if (a[k] < bl[k] - tol || b[k] > bh[k] + tol) r.fail("bounds", "%s (%s): %s [%s,%s] is larger than the bounds of the shape's box [%s,%s]", s.name.c_str(), HIST[h], what, str(a).c_str(), str(b).c_str(), str(bl).c_str(), str(bh).c_str()); } };
    test("Collider::getWorldAABB", g.c->getWorldAABB()); test("Body::getAABB", g.b->getAABB());
    { rp3d::AABB l = g.sh->getLocalBounds(); V a(l.getMin()), b(l.getMax()); if ((a - lo).len() > tol || (b - hi).len() > tol) r.fail("bounds", "%s: getLocalBounds [%s,%s], the solid spans [%s,%s]", s.name.c_str(), str(a).c_str(), str(b).c_str(), str(lo).c_str(), str(hi).c_str()); }
    V m = wh + V(1, 1, 1) * (3 * tol + size); rp3d::AABB probe(V(wl - V(1, 1, 1)).r(), V((wl + wh) * .5).r()), far(m.r(), (m + V(1, 1, 1)).r()); if (!g.c->testAABBOverlap(probe) || !g.b->testAABBOverlap(probe)) r.fail("aabb-overlap", "%s: testAABBOverlap misses a box that covers a corner", s.name.c_str()); if (s.kind == 0 || s.kind == 2) { V fl = bh + V(1, 1, 1) * (4 * tol); rp3d::AABB near(fl.r(), (fl + V(1, 1, 1)).r()); if (g.c->testAABBOverlap(near) || g.b->testAABBOverlap(near)) r.fail("aabb-overlap", "%s: testAABBOverlap reports a box that is apart", s.name.c_str()); } if (g.c->testAABBOverlap(far) && (m.x > bh.x + tol)) r.fail("aabb-overlap", "%s: testAABBOverlap reports a far box", s.name.c_str());
    // a second collider: the body's answers are the union
    if (h == 0) { auto* c2 = g.b->addCollider(g.pc.createSphereShape(decimal(.4)), Transform(Vector3(5, 0, 0), Quaternion::identity())); V q = geo::T(g.b->getTransform()) * V(5, 0, 0); if (!g.b->testPointInside(q.r()) || g.b->testPointInside((q + V(0, .5, 0)).r()) || !c2->testPointInside(q.r())) r.fail("point-inside", "compound body: second collider not seen by testPointInside"); rp3d::AABB u = g.c->getWorldAABB(); u.mergeWithAABB(c2->getWorldAABB()); rp3d::AABB bb = g.b->getAABB(); if (dist(u.getMin(), bb.getMin()) > 10 * tol || dist(u.getMax(), bb.getMax()) > 10 * tol) r.fail("bounds", "Body::getAABB is not the union of its colliders' AABBs"); }
}
static void aabbs(Run& r) {   // AABB algebra on small integer boxes: exact
    static const int R = 3; auto iv = [&](int k, int& a, int& b) { static const int A[] = {0,0,0,1,1,2,0,1,2}, B[] = {1,2,3,2,3,3,0,1,2}; a = A[k]; b = B[k]; }; (void)R;
    int lo[2][3], hi[2][3]; for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) iv(r.choose(9), lo[k][i], hi[k][i]); r.transition();
    auto mk = [&](int k) { return rp3d::AABB(Vector3(lo[k][0], lo[k][1], lo[k][2]), Vector3(hi[k][0], hi[k][1], hi[k][2])); }; rp3d::AABB A = mk(0), B = mk(1); bool ov = true, in = true; for (int i = 0; i < 3; i++) { ov = ov && lo[0][i] <= hi[1][i] && lo[1][i] <= hi[0][i]; in = in && lo[0][i] <= lo[1][i] && hi[0][i] >= hi[1][i]; }
    MC_LOG(r, "A=[%d,%d]x[%d,%d]x[%d,%d] B=[%d,%d]x[%d,%d]x[%d,%d]", lo[0][0], hi[0][0], lo[0][1], hi[0][1], lo[0][2], hi[0][2], lo[1][0], hi[1][0], lo[1][1], hi[1][1], lo[1][2], hi[1][2]);
    MC_CHECK(r, A.testCollision(B) == ov && B.testCollision(A) == ov, "aabb", "testCollision"); MC_CHECK(r, A.contains(B) == in, "aabb", "contains");
    rp3d::AABB M = A, M2; M.mergeWithAABB(B); M2.mergeTwoAABBs(A, B); double vol = 1; for (int i = 0; i < 3; i++) { MC_CHECK(r, M.getMin()[i] == std::min(lo[0][i], lo[1][i]) && M.getMax()[i] == std::max(hi[0][i], hi[1][i]) && M2.getMin()[i] == M.getMin()[i] && M2.getMax()[i] == M.getMax()[i], "aabb", "merge"); vol *= hi[0][i] - lo[0][i]; MC_CHECK(r, A.getExtent()[i] == hi[0][i] - lo[0][i] && A.getCenter()[i] == decimal(.5) * (hi[0][i] + lo[0][i]), "aabb", "extent/centre"); }
    MC_CHECK(r, A.getVolume() == vol, "aabb", "volume");
    for (int x = 0; x < 4; x++) for (int y = 0; y < 4; y++) for (int z = 0; z < 4; z++) { bool pin = x >= lo[0][0] && x <= hi[0][0] && y >= lo[0][1] && y <= hi[0][1] && z >= lo[0][2] && z <= hi[0][2]; MC_CHECK(r, A.contains(Vector3(x, y, z)) == pin, "aabb", "contains point (%d,%d,%d)", x, y, z); if (!pin) { rp3d::AABB I = A; I.inflateWithPoint(Vector3(x, y, z)); MC_CHECK(r, I.contains(A) && I.contains(Vector3(x, y, z)) && I.getMin().x == std::min(x, lo[0][0]) && I.getMax().z == std::max(z, hi[0][2]), "aabb", "inflateWithPoint"); } }
    if (lo[1][0] == 0 && hi[1][0] == 1 && lo[1][1] == 0 && hi[1][1] == 1 && lo[1][2] == 0 && hi[1][2] == 1) {  // rays: once per A, on half-odd grid points (never on a slab)
        for (int a = 0; a < 125; a++) for (int b = 0; b < 125; b++) { if (a == b) continue; auto P = [](int i) { auto f = [](int k) { return k * 1.0 - .53; }; return V(f(i % 5), f(i / 5 % 5), f(i / 25)); }; V p = P(a), q = P(b), d = q - p; double t0 = 0, t1 = 1e9; bool hit = true; for (int i = 0; i < 3; i++) { if (d[i] == 0) { if (p[i] < lo[0][i] || p[i] > hi[0][i]) hit = false; } else { double u = (lo[0][i] - p[i]) / d[i], v = (hi[0][i] - p[i]) / d[i]; if (u > v) std::swap(u, v); t0 = std::max(t0, u); t1 = std::min(t1, v); } } if (std::fabs(t1 - t0) < 1e-4 || (t1 > -1e-4 && t1 < 1e-4)) continue; hit = hit && t0 < t1; Vector3 hp; r.checked();
            bool h = A.raycast(rp3d::Ray(p.r(), q.r()), hp); if (h != hit) r.fail("aabb-ray", "AABB::raycast from %s towards %s: %d, expected %d", str(p).c_str(), str(q).c_str(), h, hit); if (h && (V(hp) - (p + d * t0)).len() > 1e-3) r.fail("aabb-ray", "AABB::raycast hit point %s, expected %s", str(V(hp)).c_str(), str(p + d * t0).c_str());
            if (std::fabs(t0 - 1) < 1e-4) continue; bool hs = A.testRayIntersect(p.r(), Vector3(1 / (decimal)d.x, 1 / (decimal)d.y, 1 / (decimal)d.z), 1); if (hs != (hit && t0 < 1)) r.fail("aabb-ray", "AABB::testRayIntersect of segment %s -> %s: %d", str(p).c_str(), str(q).c_str(), hs); } }
    mc::Hash h; for (int k = 0; k < 2; k++) for (int i = 0; i < 3; i++) h.u(lo[k][i] * 4 + hi[k][i]); r.state(h.h);
}
int main(int c, char** v) {
    std::string P = propertyId("C20"); std::vector<mc::Scenario> s;
    if (P == "C20") { s.push_back({"rays", rays, "27 shapes (1 cm to 4 m) (spheres, capsules, boxes, convex meshes with scales) x 10 API histories x 5 body x 3 local transforms x every segment between a grid of outside points and a grid of targets through and beside the shape, with full, shortened and extended segments and two maximum fractions"}); s.push_back({"compound", compound, "bodies with two colliders (all ordered pairs of shapes, 3 offsets, both orders): Body::raycast is the nearest collider hit"}); }
    else { s.push_back({"points", points, "27 shapes (1 cm to 4 m) x 10 API histories x 5 body x 3 local transforms x a grid of points in 1.2 times the bounds; bounds of collider, body and shape"}); s.push_back({"aabb", aabbs, "all pairs of boxes over 9 intervals per axis: overlap, containment, merge, volume; all segments between 125 grid points"}); }
    return mc::main(c, v, P.c_str(), s, "judged outside a band of 0.2% of the shape size around the surface\nrays start outside the solid");
}
