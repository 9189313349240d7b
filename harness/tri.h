// Oracle of a set of triangles (a concave mesh or a height field), in double precision: every question is answered by
// testing each triangle in turn.  Verdicts within the rounding of a single-precision test are UNSURE.
#pragma once
#include "cat.h"
#include <array>
namespace tri {
using geo::V; using geo::T;
struct Set { std::vector<V> v, n; std::vector<std::array<int, 3>> t; };   // placed in the world; n: unit vertex normals (may be empty)
enum Verdict { MISS, UNSURE, HIT };
enum { FRONT, BACK, BOTH };
struct RT { Verdict k = MISS; double t = 0; V p, n; double tol = 0; bool graze = false; };
// the segment a + t d, t in [0,maxf], against one triangle.  exact: the coordinates are such that float arithmetic is exact
inline RT rayTri(const V& A, const V& B, const V& C, const V& a, const V& d, double maxf, int side, bool exact) {
    RT r; V N = (B - A).cross(C - A); double len = d.len(); if (len == 0 || N.len() == 0) { r.k = UNSURE; r.graze = true; return r; } V n = N.unit(); double c = n.dot(d) / len; r.n = n;
    double D = std::max(std::max((A - a).len(), (B - a).len()), (C - a).len()), e = std::min(std::min((A - B).len(), (B - C).len()), (C - A).len()), coord = std::max(std::max(A.len(), B.len()), std::max(a.len(), C.len())) + len;
    double hmin = N.len() / std::max(std::max((A - B).len(), (B - C).len()), (C - A).len());
    double tol = exact ? 1e-12 : 6e-7 * (D * D / e + coord) + 1e-7; tol /= std::max(std::fabs(c), 1e-9); r.tol = std::max(tol, exact ? 0 : tol * (e / std::max(hmin, 1e-9)));
    if (exact && c == 0) return r;                                        // parallel to the plane: never hit
    if (std::fabs(c) < 2e-3 && !exact) {                                  // grazing: undecided when the segment comes near
        r.graze = true; double da = n.dot(a - A), db = n.dot(a + d * maxf - A), w = 2e-3 * D + 1e-4; if (std::min(da, db) > w || std::max(da, db) < -w) return r;
        V c0, c1; double dd = geo::segSeg(a, a + d * maxf, A, B); dd = std::min(dd, geo::segSeg(a, a + d * maxf, B, C)); dd = std::min(dd, geo::segSeg(a, a + d * maxf, C, A)); dd = std::min(dd, geo::pointTri(a, A, B, C)); dd = std::min(dd, geo::pointTri(a + d * maxf, A, B, C)); double t = n.dot(A - a) / n.dot(d);
        bool in = false; if (std::isfinite(t)) { V p = a + d * t; in = geo::pointTri(p, A, B, C) < w; } if (dd < 10 * w || in) r.k = UNSURE; return r; }
    if (side == FRONT && c > 0) return r; if (side == BACK && c < 0) return r;
    r.t = n.dot(A - a) / n.dot(d); r.p = a + d * r.t;
    auto edge = [&](const V& P, const V& Q, const V& R) { V u = (Q - P).unit(), w = R - P; w = (w - u * w.dot(u)).unit(); return w.dot(r.p - P); };
    double m = std::min(std::min(edge(A, B, C), edge(B, C, A)), edge(C, A, B)), tt = exact ? 1e-6 : r.tol / len;
    bool tu = std::fabs(r.t) <= tt || std::fabs(r.t - maxf) <= tt; if (!tu && (r.t < -tt || r.t > maxf + tt)) return r;
    if (m < -r.tol) return r; r.k = (m > r.tol || exact) && !tu ? HIT : UNSURE; return r; }
struct Result { bool hit = false; double f = 0; V p, n; int index = -1; };
// the reported result of a ray against the whole set
inline void judge(Run& r, const Set& s, const V& a, const V& d, double maxf, int side, bool exact, const Result& g, bool haveIndex, const std::string& what) {
    double nearest = 1e300, ntol = 0; size_t nk = 0; bool ok = !g.hit; std::vector<RT> q(s.t.size());
    for (size_t k = 0; k < s.t.size(); k++) { auto& t = s.t[k]; q[k] = rayTri(s.v[t[0]], s.v[t[1]], s.v[t[2]], a, d, maxf, side, exact); if (q[k].k == HIT && q[k].t < nearest) { nearest = q[k].t; nk = k; ntol = q[k].tol; } }
    r.checked(); auto ray = [&] { char b[300]; snprintf(b, 300, "%s: ray from %s to %s, max fraction %.4g, side %s", what.c_str(), geo::str(a).c_str(), geo::str(a + d).c_str(), maxf, side == FRONT ? "front" : side == BACK ? "back" : "both"); return std::string(b); };
    auto T3 = [&](size_t k) { return geo::str(s.v[s.t[k][0]]) + geo::str(s.v[s.t[k][1]]) + geo::str(s.v[s.t[k][2]]); };
    if (!g.hit) { if (nearest < 1e299) r.fail("ray-missed", "%s: no hit, but triangle %zu %s is hit at fraction %.6g", ray().c_str(), nk, T3(nk).c_str(), nearest); return; }
    double len = d.len(), slack = 2e-5 + (exact ? 1e-5 : 0);
    MC_CHECK(r, std::isfinite(g.f) && g.f >= 0 && g.f <= maxf, "ray-fraction", "%s: hit fraction %g", ray().c_str(), g.f);
    if (nearest < 1e299) MC_CHECK(r, g.f <= nearest + (ntol + slack) / len * 4, "ray-not-nearest", "%s: hit at fraction %.6g, but triangle %zu %s is hit at %.6g", ray().c_str(), g.f, nk, T3(nk).c_str(), nearest);
    std::string why = "no triangle is there"; size_t near = 0; double nd = 1e300;
    for (size_t k = 0; k < s.t.size(); k++) { if (haveIndex && (int)k != g.index) continue; auto& t = s.t[k]; double pd = geo::pointTri(g.p, s.v[t[0]], s.v[t[1]], s.v[t[2]]); if (pd < nd) { nd = pd; near = k; } if (q[k].k == MISS) continue;
        double tol = 4 * (q[k].tol + slack) + (q[k].graze ? 0.05 * len : 0); if (pd > 4 * (q[k].tol + slack)) { why = "the point is not on the triangle"; continue; } V on = a + d * g.f; if ((on - g.p).len() > tol) { why = "the point is not at the fraction along the ray"; continue; }
        if (!q[k].graze && std::fabs(q[k].t - g.f) > tol / len) { why = "wrong fraction"; continue; }
        V n = q[k].n.dot(d) > 0 ? -q[k].n : q[k].n; if ((q[k].graze ? std::min((n - g.n).len(), (n + g.n).len()) : (n - g.n).len()) > 2e-3) { why = "wrong normal " + geo::str(g.n) + ", expected " + geo::str(n); continue; } ok = true; break; }
    if (!ok && haveIndex && (g.index < 0 || g.index >= (int)s.t.size())) why = "triangle index out of range";
    if (!ok) r.fail("ray-hit", "%s: hit reported at %s, fraction %.6g, triangle %d: %s (nearest triangle %zu %s at distance %.3g)", ray().c_str(), geo::str(g.p).c_str(), g.f, g.index, why.c_str(), near, s.t.empty() ? "" : T3(near).c_str(), nd); }
// a contact point on the set
inline void judgeContact(Run& r, const Set& s, const V& p, const V& nrm, double tol, const std::string& what) {
    double best = 1e300; bool ok = false; V exp; for (auto& t : s.t) { const V &A = s.v[t[0]], &B = s.v[t[1]], &C = s.v[t[2]]; V q; double d = geo::pointTri(p, A, B, C, &q); best = std::min(best, d); if (d > tol) continue; V f = (B - A).cross(C - A).unit(); exp = f;
        if (std::fabs(nrm.dot(f)) > 1 - 1e-3) { ok = true; break; } if (s.n.empty()) continue;
        double ed = std::min(std::min(geo::segSeg(q, q, A, B), geo::segSeg(q, q, B, C)), geo::segSeg(q, q, C, A)); if (ed > tol) continue;
        V N = (B - A).cross(C - A); double NN = N.len2(), u = N.dot((C - B).cross(q - B)) / NN, v = N.dot((A - C).cross(q - C)) / NN; V in = s.n[t[0]] * u + s.n[t[1]] * v + s.n[t[2]] * (1 - u - v); if (in.len() < 0.05) { ok = true; break; } exp = in.unit(); if (std::fabs(nrm.dot(in.unit())) > 1 - 2e-2) { ok = true; break; } }
    r.checked(); if (best > tol) r.fail("contact-point", "%s: contact point %s is %.4g away from the nearest triangle", what.c_str(), geo::str(p).c_str(), best);
    if (!ok) r.fail("contact-normal", "%s: contact at %s has normal %s, which is not that of a triangle there (%s)", what.c_str(), geo::str(p).c_str(), geo::str(nrm).c_str(), geo::str(exp).c_str()); }
// smallest signed distance of a placed convex solid to the triangles, and to the ones that are clearly touched
inline double closest(const Set& s, const geo::Solid& c, int* which = nullptr) { double best = 1e300; V lo, hi; geo::bounds(c, lo, hi); for (size_t k = 0; k < s.t.size(); k++) { auto& t = s.t[k]; const V &A = s.v[t[0]], &B = s.v[t[1]], &C = s.v[t[2]]; double g = 0; for (int i = 0; i < 3; i++) { double l = std::min(std::min(A[i], B[i]), C[i]), h = std::max(std::max(A[i], B[i]), C[i]); g = std::max(g, std::max(l - hi[i], lo[i] - h)); } if (g > best || g > 1) { best = std::min(best, std::max(g, 1e-9)); continue; } double d = geo::signedDist(c, geo::triangle(A, B, C)); if (d < best) { best = d; if (which) *which = (int)k; } } return best; }
struct Contacts : rp3d::CollisionCallback { struct P { Vector3 l1, l2, n; double depth; rp3d::Collider *c1, *c2; }; std::vector<P> pts; int pairs = 0; void onContact(const rp3d::CollisionCallback::CallbackData& d) override { for (rp3d::uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); pairs++; for (rp3d::uint32 k = 0; k < p.getNbContactPoints(); k++) { auto c = p.getContactPoint(k); pts.push_back({c.getLocalPointOnCollider1(), c.getLocalPointOnCollider2(), c.getWorldNormal(), (double)c.getPenetrationDepth(), p.getCollider1(), p.getCollider2()}); } } } };
// ---- what both properties enumerate
inline rp3d::TriangleRaycastSide rsSide(int s) { return s == FRONT ? rp3d::TriangleRaycastSide::FRONT : s == BACK ? rp3d::TriangleRaycastSide::BACK : rp3d::TriangleRaycastSide::FRONT_AND_BACK; }
struct RayCb : rp3d::RaycastCallback { Result g; decimal notifyRaycastHit(const rp3d::RaycastInfo& i) override { g.hit = true; g.f = i.hitFraction; g.p = V(i.worldPoint); g.n = V(i.worldNormal); g.index = i.triangleIndex; return i.hitFraction; } };
// one ray, through the collider and through the world
inline void castOne(Run& r, const Set& s, rp3d::PhysicsWorld* w, rp3d::Collider* c, const V& a, const V& b, double maxf, int side, bool exact, bool haveIndex, const std::string& what) {
    Vector3 p1 = a.r(), p2 = b.r(); V A(p1), B(p2); rp3d::Ray ray(p1, p2, decimal(maxf)); rp3d::RaycastInfo ri; Result g; g.hit = c->raycast(ray, ri); r.transition(2); if (g.hit) { g.f = ri.hitFraction; g.p = V(ri.worldPoint); g.n = V(ri.worldNormal); g.index = ri.triangleIndex; MC_CHECK(r, ri.collider == c && ri.body == c->getBody(), "ray-collider", "%s: wrong body or collider in the hit", what.c_str()); }
    judge(r, s, A, B - A, maxf, side, exact, g, haveIndex, what + " (collider)"); RayCb cb; w->raycast(ray, &cb); judge(r, s, A, B - A, maxf, side, exact, cb.g, haveIndex, what + " (world)"); }
struct Placed { Set s; rp3d::RigidBody* body; rp3d::Collider* c; std::string name; };
struct Pose { rp3d::Transform b, l; };
inline std::vector<Pose> poses() { std::vector<Pose> p(4); p[1].b = rp3d::Transform(Vector3(3, -2, 5), axisAngle(1, 1, 0, .7)); p[2].b = rp3d::Transform(Vector3(-20, 4, 1), axisAngle(0, 0, 1, M_PI / 2)); p[2].l = rp3d::Transform(Vector3(1, 2, -3), axisAngle(1, -2, 3, 2.3)); p[3].l = rp3d::Transform(Vector3(0, 0, 4), axisAngle(0, 1, 0, M_PI)); return p; }
// rays through the bounding box of the set: from points around it to points inside it
inline void castAll(Run& r, const Placed& p, rp3d::PhysicsWorld* w, int side, bool dense, bool haveIndex = true) {
    V lo(1e9, 1e9, 1e9), hi = -lo; for (auto& q : p.s.v) { lo = V(std::min(lo.x, q.x), std::min(lo.y, q.y), std::min(lo.z, q.z)); hi = V(std::max(hi.x, q.x), std::max(hi.y, q.y), std::max(hi.z, q.z)); } V c = (lo + hi) * .5, h = (hi - lo) * .5; double L = h.len(); h = V(std::max(h.x, .3 * L), std::max(h.y, .3 * L), std::max(h.z, .3 * L));
    std::vector<V> from, to; double k = dense ? 1 : 2; for (double x = -1; x <= 1; x += k) for (double y = -1; y <= 1; y += k) for (double z = -1; z <= 1; z += k) if (x || y || z) from.push_back(c + V(x * h.x, y * h.y, z * h.z) * 1.7); from.push_back(c + V(.1 * h.x, .7 * h.y, -.2 * h.z)); from.push_back(c - V(.3 * h.x, .35 * h.y, .1 * h.z)); from.push_back(c + V(0, 2.5 * h.y, 0)); from.push_back(c + V(0.05 * h.x, -2.5 * h.y, 0)); from.push_back(c + V(2.5 * h.x, 0, 0.1 * h.z));
    double d = dense ? .36 : .6; for (double x = -.97; x <= 1; x += d) for (double y = -.95; y <= 1; y += d * 1.3) for (double z = -.96; z <= 1; z += d) to.push_back(c + V(x * h.x, y * h.y, z * h.z));
    for (auto& a : from) for (auto& b : to) for (int q = 0; q < 2; q++) { V e = q ? a + (b - a) * 3 : b; tri::castOne(r, p.s, w, p.c, a, e, q ? 1 : .7, side, false, haveIndex, p.name); } }
// collision queries
inline std::vector<Spec> convexes() { return {S0(.4), S1(.25, .8), S2(.3, .5, .4), S3("octahedron", meshOcta(.5, .6, .4)), S3("tetrahedron", meshTetra(.4)), S2(1.2, .15, .9), S0(1.1)}; }
inline uint64_t collideAll(Run& r, const Placed& p, rp3d::PhysicsWorld* w, rp3d::RigidBody* b, const geo::Solid& base, const std::string& csName, const Quaternion& q, int n) {
    V lo(1e9, 1e9, 1e9), hi = -lo; for (auto& v : p.s.v) { lo = V(std::min(lo.x, v.x), std::min(lo.y, v.y), std::min(lo.z, v.z)); hi = V(std::max(hi.x, v.x), std::max(hi.y, v.y), std::max(hi.z, v.z)); } uint64_t touch = 0;
    for (int i = 0; i <= n; i++) for (int j = 0; j <= n; j++) for (int k = 0; k <= n; k++) { V at(lo.x - .3 + (hi.x - lo.x + .6) * (i + .03) / n, lo.y - .45 + (hi.y - lo.y + .9) * (j + .07) / n, lo.z - .3 + (hi.z - lo.z + .6) * (k - .05) / n); rp3d::Transform t(at.r(), q); b->setTransform(t); geo::Solid s = geo::place(base, T(t)); int which = -1; double d = closest(p.s, s, &which);
        std::string what = p.name + " with " + csName + " at " + geo::str(at); Contacts cb; bool sw = (i + j + k) & 1; w->testCollision(sw ? p.body : (rp3d::Body*)b, sw ? (rp3d::Body*)b : p.body, cb); bool ov = w->testOverlap(b, p.body); r.transition(2); r.checked(2);
        if (d < -.01) { touch++; if (!cb.pairs) r.fail("collision-missed", "%s: no contact, but triangle %d is penetrated by %.4g", what.c_str(), which, -d); MC_CHECK(r, ov, "overlap-missed", "%s: testOverlap() is false, but triangle %d is penetrated by %.4g", what.c_str(), which, -d); }
        if (d > .01) { MC_CHECK(r, !cb.pairs, "collision-phantom", "%s: contact reported, but the nearest triangle is %.4g away", what.c_str(), d); MC_CHECK(r, !ov, "overlap-phantom", "%s: testOverlap() is true, but the nearest triangle is %.4g away", what.c_str(), d); }
        for (auto& c : cb.pts) { bool one = c.c1 == p.c; Vector3 wp = p.c->getLocalToWorldTransform() * (one ? c.l1 : c.l2); judgeContact(r, p.s, V(wp), V(c.n), .02, what); } }
    return touch; }
// the world AABBs of the collider and of its body wherever it is moved: contain every vertex and stay inside the AABB of the box of the local bounds
inline void boundsEverywhere(mc::Run& r, const Placed& p, const std::vector<V>& loc, const rp3d::AABB& lb) { V c = (V(lb.getMin()) + V(lb.getMax())) * .5, h = V(lb.getMax()) - c;
    for (auto& a : poses()) for (auto& b : poses()) { p.c->setLocalToBodyTransform(a.l); p.body->setTransform(b.b); r.transition(2); geo::T T = geo::T(p.body->getTransform()) * geo::T(p.c->getLocalToBodyTransform()); geo::T X = T; V C = X * c; V ax[3] = {X.R * V(1, 0, 0), X.R * V(0, 1, 0), X.R * V(0, 0, 1)}; double e = 2e-5 * (1 + C.len() + h.len());
        for (int q = 0; q < 2; q++) { rp3d::AABB wb = q ? p.body->getAABB() : p.c->getWorldAABB(); V lo = wb.getMin(), hi = wb.getMax(); r.checked(loc.size()); const char* who = q ? "Body::getAABB()" : "Collider::getWorldAABB()";
            for (auto& l : loc) { V w = T * l; for (int k = 0; k < 3; k++) if (w[k] < lo[k] - e || w[k] > hi[k] + e) r.fail("moved-bounds", "%s moved to %s: %s %s..%s does not contain the vertex %s", p.name.c_str(), geo::str(T.p).c_str(), who, geo::str(lo).c_str(), geo::str(hi).c_str(), geo::str(w).c_str()); }
            for (int k = 0; k < 3; k++) { double ext = h.x * std::fabs(ax[0][k]) + h.y * std::fabs(ax[1][k]) + h.z * std::fabs(ax[2][k]); if (lo[k] < C[k] - ext - e || hi[k] > C[k] + ext + e) r.fail("loose-bounds", "%s moved to %s: %s %s..%s, but the box of the local bounds reaches %.6g +- %.6g along axis %d", p.name.c_str(), geo::str(T.p).c_str(), who, geo::str(lo).c_str(), geo::str(hi).c_str(), C[k], ext, k); } } } }
} // namespace tri
