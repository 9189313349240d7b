// Catalogue of convex shapes: created through the public API, with the oracle solid of each.
#pragma once
#include "rp.h"
#include "geo.h"
struct Mesh { std::vector<geo::V> v; std::vector<std::vector<int>> f; };
inline Mesh meshTetra(double k, geo::V off = geo::V()) { Mesh m; m.v = {geo::V(k, k, k), geo::V(k, -k, -k), geo::V(-k, k, -k), geo::V(-k, -k, k)}; m.f = {{0,1,2},{0,1,3},{0,2,3},{1,2,3}}; for (auto& p : m.v) p = p + off; return m; }
inline Mesh meshOcta(double a, double b, double c) { Mesh m; m.v = {geo::V(a,0,0), geo::V(-a,0,0), geo::V(0,b,0), geo::V(0,-b,0), geo::V(0,0,c), geo::V(0,0,-c)}; m.f = {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}}; return m; }
inline Mesh meshBox(double x, double y, double z, geo::V off = geo::V()) { geo::Solid s = geo::box(x, y, z); Mesh m; m.v = s.v; m.f = s.f; for (auto& p : m.v) p = p + off; return m; }
inline Mesh meshPrism(int n, double r, double h) { Mesh m; for (int k = 0; k < 2; k++) for (int i = 0; i < n; i++) m.v.push_back(geo::V(r * std::cos(2 * M_PI * i / n), k ? h / 2 : -h / 2, r * std::sin(2 * M_PI * i / n)));
    std::vector<int> bot, top; for (int i = 0; i < n; i++) { bot.push_back(i); top.push_back(n + i); } m.f.push_back(bot); m.f.push_back(top); for (int i = 0; i < n; i++) m.f.push_back({i, (i + 1) % n, n + (i + 1) % n, n + i}); return m; }
inline Mesh meshWedge() { Mesh m; m.v = {geo::V(-.5,-.4,-.6), geo::V(.7,-.4,-.6), geo::V(.7,-.4,.6), geo::V(-.5,-.4,.6), geo::V(-.5,.8,-.6), geo::V(-.5,.8,.6)}; m.f = {{0,1,2,3},{0,3,5,4},{1,4,5,2},{0,4,1},{3,2,5}}; return m; }
// wind the faces counter-clockwise seen from outside
inline Mesh wound(Mesh m) { geo::Solid s = geo::polytope(m.v, m.f); m.f = s.f; return m; }
struct MeshData { std::vector<float> v; std::vector<int> idx; std::vector<rp3d::PolygonVertexArray::PolygonFace> faces; };
inline rp3d::ConvexMesh* makeConvexMesh(rp3d::PhysicsCommon& pc, const Mesh& m0, std::string* err = nullptr) { Mesh m = wound(m0); MeshData d; for (auto& p : m.v) { d.v.push_back((float)p.x); d.v.push_back((float)p.y); d.v.push_back((float)p.z); }
    for (auto& f : m.f) { rp3d::PolygonVertexArray::PolygonFace pf; pf.nbVertices = (unsigned)f.size(); pf.indexBase = (unsigned)d.idx.size(); d.faces.push_back(pf); for (int i : f) d.idx.push_back(i); }
    rp3d::PolygonVertexArray pva((unsigned)m.v.size(), d.v.data(), 3 * sizeof(float), d.idx.data(), sizeof(int), (unsigned)d.faces.size(), d.faces.data(), rp3d::PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, rp3d::PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
    std::vector<rp3d::Message> msg; auto* c = pc.createConvexMesh(pva, msg); if (!c && err) for (auto& q : msg) *err += q.text + "; "; return c; }
inline Mesh scaled(Mesh m, const geo::V& s) { for (auto& p : m.v) p = geo::V((float)p.x * s.x, (float)p.y * s.y, (float)p.z * s.z); return m; }

struct Spec { std::string name; int kind; double a = 0, b = 0, c = 0; Mesh mesh; geo::V scale = geo::V(1, 1, 1); };
// via = 0: create with the final size; 1: create with another size, then use the setters
inline rp3d::CollisionShape* makeShape(rp3d::PhysicsCommon& pc, const Spec& s, int via = 0) {
    switch (s.kind) {
    case 0: { auto* p = pc.createSphereShape(decimal(via ? 1.7 : s.a)); if (via) p->setRadius(decimal(s.a)); return p; }
    case 1: { auto* p = pc.createCapsuleShape(decimal(via ? 0.9 : s.a), decimal(via ? 0.8 : s.b)); if (via) { p->setRadius(decimal(s.a)); p->setHeight(decimal(s.b)); } return p; }
    case 2: { auto* p = pc.createBoxShape(via ? Vector3(decimal(.9), 1, decimal(.4)) : Vector3(decimal(s.a), decimal(s.b), decimal(s.c))); if (via) p->setHalfExtents(Vector3(decimal(s.a), decimal(s.b), decimal(s.c))); return p; }
    default: { std::string e; auto* m = makeConvexMesh(pc, s.mesh, &e); if (!m) { fprintf(stderr, "mesh rejected: %s\n", e.c_str()); return nullptr; } auto* p = pc.createConvexMeshShape(m, via ? Vector3(decimal(.7), 2, 1) : s.scale.r()); if (via) p->setScale(s.scale.r()); return p; }
    }
}
inline geo::Solid solidOf(const Spec& s) { switch (s.kind) { case 0: return geo::sphere((float)s.a); case 1: return geo::capsule((float)s.a, (float)s.b); case 2: return geo::box((float)s.a, (float)s.b, (float)s.c); default: { Mesh m = scaled(s.mesh, s.scale); return geo::polytope(m.v, m.f); } } }
inline Spec S0(double r) { Spec s; s.kind = 0; s.a = r; char b[60]; snprintf(b, 60, "sphere(%g)", r); s.name = b; return s; }
inline Spec S1(double r, double h) { Spec s; s.kind = 1; s.a = r; s.b = h; char b[60]; snprintf(b, 60, "capsule(%g,%g)", r, h); s.name = b; return s; }
inline Spec S2(double x, double y, double z) { Spec s; s.kind = 2; s.a = x; s.b = y; s.c = z; char b[60]; snprintf(b, 60, "box(%g,%g,%g)", x, y, z); s.name = b; return s; }
inline Spec S3(const char* n, const Mesh& m, geo::V sc = geo::V(1, 1, 1)) { Spec s; s.kind = 3; s.mesh = m; s.scale = sc; char b[100]; snprintf(b, 100, "%s*(%g,%g,%g)", n, sc.x, sc.y, sc.z); s.name = b; return s; }
inline Quaternion axisAngle(double x, double y, double z, double a) { double l = std::sqrt(x * x + y * y + z * z), s = std::sin(a / 2) / l; return Quaternion(decimal(x * s), decimal(y * s), decimal(z * s), decimal(std::cos(a / 2))); }
inline std::vector<Quaternion> rotations() { return {Quaternion::identity(), axisAngle(0, 0, 1, M_PI / 2), axisAngle(1, 1, 0, 0.7), axisAngle(0, 1, 0, M_PI), axisAngle(1, -2, 3, 2.3), axisAngle(1, 1, 1, 2 * M_PI / 3)}; }
namespace geo {
// segment against the solid grown by off (off < 0: shrunk): entry parameter of a + t(b-a) in [0, tmax], or -1
inline double rayOff(const Solid& s0, double off, const V& a, const V& b, double tmax = 1) {
    if (s0.f.empty()) { Solid s = s0; s.radius += off; if (s.radius <= 0) return -1; double t = raySolid(s, a, b); return t >= 0 && t <= tmax ? t : -1; }
    V d = b - a; double t0 = -1e300, t1 = 1e300; for (size_t i = 0; i < s0.f.size(); i++) { V n = s0.fn(i); double den = n.dot(d), num = n.dot(s0.v[s0.f[i][0]] - a) + off; if (den == 0) { if (num < 0) return -1; continue; } double t = num / den; if (den < 0) t0 = std::max(t0, t); else t1 = std::min(t1, t); }
    return t0 <= t1 && t0 >= 0 && t0 <= tmax ? t0 : -1; }
// is there a face / surface element within tol of p whose outward normal is n (up to ntol)?
inline bool normalOk(const Solid& s, const V& p, const V& n, double tol, double ntol) {
    if (s.f.empty()) { V c; pointCore(s, p, &c); return ((p - c).unit() - n).len() < ntol; }
    for (size_t i = 0; i < s.f.size(); i++) { V m = s.fn(i); if (std::fabs(m.dot(p - s.v[s.f[i][0]])) < tol && (m - n).len() < ntol) return true; } return false; }
}
