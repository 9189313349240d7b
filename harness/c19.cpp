// C19: narrow phase against double-precision geometry: every ordered pair of convex shapes, relative rotations and
// offsets; contact data; symmetry; independence of what was tested in earlier frames.
#include "cat.h"
using namespace geo;
static std::vector<Spec> specs(bool big) {
    std::vector<Spec> s = {S0(.5), S1(.3, 1), S2(.5, .5, .5), S2(.2, .9, .6), S3("octa", meshOcta(.6, .9, .5)), S3("wedge", meshWedge(), V(1.4, .7, 1)), S3("tetra", meshTetra(.7, V(.3, .1, -.2)), V(.6, 1.5, 1))};
    if (big) for (auto x : {S0(1.2), S1(.6, .3), S3("prism5", meshPrism(5, .7, 1.2), V(1, 1.5, .6)), S3("tetra off origin", meshTetra(.5, V(1.5, 0, 0)))}) s.push_back(x);
    return s; }
static double BIG = 1; // one shape this much larger than the other
static double K = 1;   // size of the world: the library sees everything K times as large as the oracle
static Spec sized(Spec s) { s.a *= K; s.b *= K; s.c *= K; s.scale = s.scale * K; return s; }
static Transform sized(const Transform& t) { return Transform(t.getPosition() * (decimal)K, t.getOrientation()); }
struct CPt { V n; double depth; V l1, l2; };
struct Man : rp3d::EventListener { rp3d::Body *b1 = nullptr; rp3d::Collider* c1 = nullptr; std::vector<CPt> p; int pairs = 0; std::string bad; rp3d::Body *first = nullptr;
    void reset() { p.clear(); pairs = 0; bad.clear(); first = nullptr; }
    void onContact(const rp3d::CollisionCallback::CallbackData& d) override { typedef rp3d::CollisionCallback::ContactPair P; for (unsigned i = 0; i < d.getNbContactPairs(); i++) { auto c = d.getContactPair(i); if (c.getEventType() == P::EventType::ContactExit) continue; pairs++; first = c.getBody1(); bool sw = c.getBody1() != b1; if ((c.getCollider1() == c1) == sw) bad = "collider and body order differ";
            for (unsigned k = 0; k < c.getNbContactPoints(); k++) { auto q = c.getContactPoint(k); CPt t; t.n = V(q.getWorldNormal()); t.depth = q.getPenetrationDepth() / K; t.l1 = V(q.getLocalPointOnCollider1()) * (1 / K); t.l2 = V(q.getLocalPointOnCollider2()) * (1 / K); if (sw) { std::swap(t.l1, t.l2); t.n = -t.n; } p.push_back(t); } } } };
struct Pair { PageAllocator al; rp3d::PhysicsCommon pc{&al}; rp3d::PhysicsWorld* w; rp3d::RigidBody *b1, *b2; rp3d::Collider *c1, *c2; Man man;
    Pair(const Spec& a, const Spec& b, bool locked = true) { rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, 0, 0); s.isSleepingEnabled = false; w = pc.createPhysicsWorld(s); b1 = w->createRigidBody(Transform::identity()); b2 = w->createRigidBody(Transform::identity()); c1 = b1->addCollider(makeShape(pc, sized(a)), Transform::identity()); c2 = b2->addCollider(makeShape(pc, sized(b)), Transform::identity()); if (locked) for (auto* x : {b1, b2}) { x->setLinearLockAxisFactor(Vector3(0, 0, 0)); x->setAngularLockAxisFactor(Vector3(0, 0, 0)); } man.b1 = b1; man.c1 = c1; } };
static double sz(const Solid& s) { V l, h; bounds(s, l, h); return std::min({h.x - l.x, h.y - l.y, h.z - l.z}); }
// everything a manifold has to satisfy for the pair (A, B) placed at (ta, tb)
static void judge(Run& r, const char* what, const Man& m, const Solid& A, const Solid& B, const geo::T& ta, const geo::T& tb, const Solid& la, const Solid& lb, double d, bool fresh, double tol, const std::string& ctx) {
    const bool small = K < 1 && la.kind >= 2 && lb.kind >= 2;   // faces are preferred to edges by 0.5 mm, whatever the size
    if (!m.bad.empty()) r.fail("contact-order", "%s: %s: %s", what, ctx.c_str(), m.bad.c_str());
    if (m.pairs > 1) r.fail("contact-twice", "%s: %s: the pair is reported %d times", what, ctx.c_str(), m.pairs);
    if (!m.pairs) return; int n = (int)m.p.size();
    if (n < 1) r.fail("contact-empty", "%s: %s: contact pair without contact points", what, ctx.c_str());
    int maxPts = 4; if (n > maxPts) r.fail("contact-many", "%s: %s: %d contact points", what, ctx.c_str(), n);
    double deepest = 0; V nn;
    for (auto& q : m.p) { if (std::fabs(q.n.len() - 1) > 1e-3) r.fail("contact-normal", "%s: %s: normal length %g", what, ctx.c_str(), q.n.len()); if (!(q.depth >= 0)) r.fail("contact-depth", "%s: %s: negative depth %g", what, ctx.c_str(), q.depth);
        V w1 = ta * q.l1, w2 = tb * q.l2;   // on their shapes, and apart by depth along the normal
        double s1 = pointSolid(A, w1), s2 = pointSolid(B, w2);
        if (s1 > tol || s1 < -2 * std::max(q.depth, -d) - tol) r.fail("contact-point", "%s: %s: local point of body 1 is %g from its surface", what, ctx.c_str(), s1);
        if (s2 > tol || s2 < -2 * std::max(q.depth, -d) - tol) r.fail("contact-point", "%s: %s: local point of body 2 is %g from its surface", what, ctx.c_str(), s2);
        double al = (w1 - w2).dot(q.n); if (std::fabs(al - q.depth) > tol) r.fail("contact-depth", "%s: %s: the two contact points are %g apart along the normal, depth says %g", what, ctx.c_str(), al, q.depth);
        if (q.depth > deepest) deepest = q.depth; nn = q.n;
        if (q.depth > overlapAlong(A, B, q.n) + tol) r.fail("contact-depth", "%s: %s: depth %g, but the shapes overlap by only %g along the normal %s", what, ctx.c_str(), q.depth, overlapAlong(A, B, q.n), str(q.n).c_str()); }
    for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) if ((m.p[i].l1 - m.p[j].l1).len() < 1e-5 && (m.p[i].l2 - m.p[j].l2).len() < 1e-5 && (m.p[i].n - m.p[j].n).len() < 1e-4) r.fail("contact-duplicate", "%s: %s: contact points %d and %d coincide", what, ctx.c_str(), i, j);
    if (fresh && d < -tol) { // the true penetration depth: the smallest translation (up to the documented preference for faces)
        double want = -d; if (overlapAlong(A, B, nn) > want * 1.05 + .005 + tol + (BIG > 1 ? .02 * BIG : 0) || (!small && deepest < want * .7 - .01 - tol) || deepest > want * 1.1 + .01 + tol) r.fail("contact-depth", "%s: %s: deepest contact %g along %s, the true penetration depth is %g, the overlap along the normal %g", what, ctx.c_str(), deepest, str(nn).c_str(), want, overlapAlong(A, B, nn)); }
    (void)la; (void)lb;
}
static std::vector<V> dirs(bool deep) { std::vector<V> o; if (deep) for (int x = -1; x <= 1; x++) for (int y = -1; y <= 1; y++) for (int z = -1; z <= 1; z++) if (x || y || z) o.push_back(V(x, y * 1.1, z * .9)); for (V v : {V(1, 0, 0), V(0, 1, 0), V(0, 0, 1), V(-1, .3, .2), V(.2, -1, .35), V(.4, .1, -1), V(1, 1.1, .9), V(-.7, 1, -.6), V(.03, .02, 1)}) o.push_back(v); return o; }
static double tolerance(double base) { return 1e-3 * std::max(1.0, base) + std::max(2e-3, K < 1 ? 2.5e-3 / K : 0); }
static void placements(Run& r, const std::vector<double>& ks, double big = 1) {
    K = ks[r.choose((int)ks.size())];
    auto sp = specs(true); int i = r.choose((int)sp.size()), j = r.choose((int)sp.size()); auto q = rotations(); int ri = r.choose(r.thorough ? (int)q.size() : 2), rj = r.choose((int)q.size()); if (!r.thorough) ri *= 4; int frame = r.choose(2); // frame: common rigid motion
    BIG = big; if (big != 1) { int which = r.choose(2); Spec& t = sp[which ? i : j]; if (i == j) r.prune(); t.a *= big; t.b *= big; t.c *= big; t.scale = t.scale * big; t.name = "large " + t.name; }
    Pair P(sp[i], sp[j]); Solid la = solidOf(sp[i]), lb = solidOf(sp[j]); MC_LOG(r, "size %g: %s rot %d vs %s rot %d, common motion %d", K, sp[i].name.c_str(), ri, sp[j].name.c_str(), rj, frame);
    Transform F = frame ? Transform(Vector3(5, -3, 2), q[2]) : Transform::identity(); double base = std::min(sz(la), sz(lb)); V ca, cb; { V l, h; bounds(la, l, h); ca = (l + h) * .5; bounds(lb, l, h); cb = (l + h) * .5; }
    auto D = dirs(true); std::vector<double> fr = {-.9, -.5, -.25, -.08, -.03, .03, .1, .4}; if (r.thorough) for (double x : {-.7, -.35, -.15, -.05, -.02, .02, .05, .2}) fr.push_back(x); int nf = (int)fr.size();
    for (auto& dr : D) { V u = dr.unit();
        // slide body 2 along u: offset such that the signed distance along u spans from deep overlap to apart
        Transform T1 = Transform(Vector3(0, 0, 0), q[ri]), T2r = Transform(Vector3(0, 0, 0), q[rj]); Solid A0 = place(la, geo::T(T1)), B0 = place(lb, geo::T(T2r)); double touch = overlapAlong(A0, B0, u); (void)ca; (void)cb;
        V lat; { Solid& S = B0; V l, h; bounds(S, l, h); V mb = (l + h) * .5; bounds(A0, l, h); V ma = (l + h) * .5; V dd = ma - mb; lat = dd - u * dd.dot(u); }    // centres aligned across u
        for (int f = 0; f < nf; f++) { V off = lat + u * (touch + fr[f] * base * .6); Transform T2(off.r(), q[rj]); Transform W1 = F * T1, W2 = F * T2; P.b1->setTransform(sized(W1)); P.b2->setTransform(sized(W2)); geo::T ta(W1), tb(W2); Solid A = place(la, ta), B = place(lb, tb); double d = signedDist(A, B); double tol = tolerance(base) + (big > 1 ? 1e-4 * big : 0); r.transition();
            char cx[300]; snprintf(cx, 300, "%s rot %d / %s rot %d offset %s frame %d (signed distance %.5f)", sp[i].name.c_str(), ri, sp[j].name.c_str(), rj, str(off).c_str(), frame, d); std::string ctx = cx;
            bool o12 = P.w->testOverlap(P.b1, P.b2), o21 = P.w->testOverlap(P.b2, P.b1); P.man.reset(); P.w->testCollision(P.b1, P.b2, P.man); Man m1 = P.man; r.checked(3);
            if (d < -tol && !(o12 && o21 && m1.pairs)) r.fail("narrow-missed", "%s: overlap test %d/%d, contact test %d", ctx.c_str(), o12, o21, m1.pairs);
            if (d > tol && (o12 || o21 || m1.pairs)) r.fail("narrow-false", "%s: overlap test %d/%d, contact test %d", ctx.c_str(), o12, o21, m1.pairs);
            if (o12 != o21 && std::fabs(d) > tol) r.fail("narrow-asymmetric", "%s: testOverlap is not symmetric", ctx.c_str());
            judge(r, "testCollision", m1, A, B, ta, tb, la, lb, d, true, tol, ctx);
            P.man.reset(); P.w->testCollision(P.b2, P.b1, P.man); if ((P.man.pairs > 0) != (m1.pairs > 0)) r.fail("narrow-asymmetric", "%s: testCollision is not symmetric", ctx.c_str()); judge(r, "testCollision (swapped)", P.man, A, B, ta, tb, la, lb, d, true, tol, ctx);
            mc::Hash h; h.u(i * 1000 + j * 100 + ri * 50 + rj * 5 + frame); h.u(m1.p.size()); hashV(h, off.r()); r.state(h.h); } }
}
// what was tested in earlier frames must not change the answer: all sequences of placements
static void history(Run& r, const std::vector<double>& ks) { BIG = 1;
    K = ks[r.choose((int)ks.size())];
    auto sp = specs(true); int i = r.choose((int)sp.size()), j = r.choose((int)sp.size()); auto q = rotations(); int ri = r.choose(2); Pair P(sp[i], sp[j]); Solid la = solidOf(sp[i]), lb = solidOf(sp[j]); double base = std::min(sz(la), sz(lb));
    P.w->setEventListener(&P.man); int L = r.thorough ? 3 : 2; static const int DI[] = {0, 1, 2, 3, 4, 6, 7}; auto D = dirs(false); std::string hist; MC_LOG(r, "size %g: %s / %s", K, sp[i].name.c_str(), sp[j].name.c_str());
    std::vector<V> axes = {V(1, 0, 0), V(-1, 0, 0), V(0, 1, 0), V(0, -1, 0), V(0, .2, 1), V(.7, .7, .1), V(-.6, .5, -.6)}; double fr[] = {-.4, -.04, .04};
    for (int k = 0; k < L; k++) { int a = r.choose((int)axes.size()), f = r.choose(3), rj = r.choose(2); V u = axes[a].unit(); Transform T1(Vector3(0, 0, 0), q[ri * 4]), T2r(Vector3(0, 0, 0), q[rj * 2]); Solid A0 = place(la, geo::T(T1)), B0 = place(lb, geo::T(T2r)); double touch = overlapAlong(A0, B0, u); V lat; { V l, h; bounds(B0, l, h); V mb = (l + h) * .5; bounds(A0, l, h); V ma = (l + h) * .5; V dd = ma - mb; lat = dd - u * dd.dot(u); }
        V off = lat + u * (touch + fr[f] * base); Transform T2(off.r(), q[rj * 2]); P.b1->setTransform(sized(T1)); P.b2->setTransform(sized(T2)); geo::T ta(T1), tb(T2); Solid A = place(la, ta), B = place(lb, tb); double d = signedDist(A, B), tol = tolerance(base);
        char cx[300]; snprintf(cx, 300, "%s / %s update %d: offset %s rotation %d (signed distance %.5f)", sp[i].name.c_str(), sp[j].name.c_str(), k, str(off).c_str(), rj * 2, d); std::string ctx = cx; MC_LOG(r, "%s", cx);
        P.man.reset(); P.w->update(decimal(1 / 60.)); r.transition(); r.checked(2); Man m = P.man;
        if (d < -tol && !m.pairs) r.fail("narrow-missed", "%s: no contact reported", ctx.c_str());
        if (d > tol && m.pairs) r.fail(sp[i].kind >= 2 && sp[j].kind >= 2 ? "narrow-stale-poly" : "narrow-stale", "%s: contact reported (%zu points, deepest along %s depth %g)", ctx.c_str(), m.p.size(), m.p.empty() ? "" : str(m.p[0].n).c_str(), m.p.empty() ? 0 : m.p[0].depth);
        judge(r, "update", m, A, B, ta, tb, la, lb, d, sp[i].kind < 2 || sp[j].kind < 2, tol, ctx);
        mc::Hash h; h.u(i * 1000 + j * 100 + ri); h.u(a * 10 + f); h.u(m.p.size()); r.state(h.h); }
}
static const std::vector<double> KS = {.1, .3, 10, 100};
int main(int c, char** v) {
    std::string P = propertyId("C19"); std::vector<mc::Scenario> s;
    s.push_back({"placements", [](Run& r) { placements(r, {1}); }, "all ordered pairs of 11 convex shapes x 2x6 rotations x common rigid motion x 35 directions x 8 offsets (thorough: 6x6 rotations, 16 offsets) from deep overlap to apart: testOverlap and testCollision in both orders, contact data"});
    s.push_back({"history", [](Run& r) { history(r, {1}); }, "all ordered pairs of 11 shapes x 2 rotations x all sequences of 2 (thorough 3) placements (7 directions x 3 offsets x 2 rotations), update() after each: contacts depend on the current placement only"});
    s.push_back({"sizes", [](Run& r) { placements(r, KS); }, "the placements with everything (shapes, positions) at 4 other sizes (0.1, 0.3, 10 and 100 times as large)"});
    s.push_back({"sizehistory", [](Run& r) { history(r, {.1, 10}); }, "the histories at 2 other sizes (0.1 and 10)"});
    s.push_back({"uneven", [](Run& r) { placements(r, {1}, r.choose(2) ? 40 : 10); }, "the placements with one of the two shapes 10 and 40 times as large"});
    return mc::main(c, v, P.c_str(), s, "placements within 0.2% of touching are not judged; objects of a few centimetres are judged to within 2.5 mm");
}
