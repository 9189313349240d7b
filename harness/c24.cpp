// Concave meshes (C24): rays, collision queries and bounds of a ConcaveMeshShape must equal those of its triangles tested in turn.
#include "tri.h"
using namespace rp3d; using geo::V;
struct TM { std::string name; std::vector<V> v; std::vector<std::array<int, 3>> t; };
static void addBox(TM& m, const V& o, const V& h) { int b = m.v.size(); geo::Solid s = geo::box(h.x, h.y, h.z); for (auto& p : s.v) m.v.push_back(p + o); for (auto& f : s.f) { m.t.push_back({b + f[0], b + f[1], b + f[2]}); m.t.push_back({b + f[0], b + f[2], b + f[3]}); } }
static TM grid(int n, int m, std::function<double(int, int)> h, const char* name) { TM g; g.name = name; for (int j = 0; j <= m; j++) for (int i = 0; i <= n; i++) g.v.push_back(V(i - n / 2, h(i, j), j - m / 2)); for (int j = 0; j < m; j++) for (int i = 0; i < n; i++) { int a = j * (n + 1) + i, b = a + 1, c = a + n + 1, d = c + 1; g.t.push_back({a, c, b}); g.t.push_back({b, c, d}); } return g; }
static TM named(int k) { TM m; switch (k) {
    case 0: m = {"triangle", {V(0,0,0), V(2,0,0), V(0,0,-2)}, {{0,1,2}}}; break;
    case 1: m = {"quad", {V(-1,0,-1), V(-1,0,1), V(1,0,1), V(1,0,-1)}, {{0,1,2},{0,2,3}}}; break;
    case 2: m = {"tetrahedron", {V(-1,-1,-1), V(2,-1,-1), V(-1,-1,2), V(-1,2,-1)}, {{0,1,2},{0,3,1},{1,3,2},{2,3,0}}}; break;
    case 3: m.name = "box"; addBox(m, V(0, 0, 0), V(1, 1, 1)); break;
    case 4: m = grid(4, 4, [](int i, int j) { return (i * 7 + j * 5) % 3 * 0.5; }, "bumpy grid"); break;
    case 5: m = grid(4, 4, [](int, int) { return 0.0; }, "flat grid"); break;
    case 6: m = {"fold", {V(-2,0,-1), V(-2,0,1), V(0,0,-1), V(0,0,1), V(0,2,-1), V(0,2,1), V(2,2,-1), V(2,2,1)}, {{0,1,2},{2,1,3},{2,3,4},{4,3,5},{4,5,6},{6,5,7}}}; break;
    case 7: m = {"two-sided quad", {V(-1,0,-1), V(-1,0,1), V(1,0,1), V(1,0,-1)}, {{0,1,2},{0,2,3},{0,2,1},{0,3,2}}}; break;
    case 8: m.name = "two boxes"; addBox(m, V(-2, 0, 0), V(1, .5, .5)); addBox(m, V(2, 1, 0), V(.5, 1, 1)); break;
    case 9: { m.name = "fan"; m.v.push_back(V(0, 1, 0)); for (int i = 0; i < 8; i++) m.v.push_back(V(i % 4 == 0 ? 2 - i / 2. : i % 4 == 2 ? 0 : i == 1 || i == 7 ? 1.5 : -1.5, 0, i == 2 ? 2 : i == 6 ? -2 : i % 4 == 0 ? 0 : i < 4 ? 1.5 : -1.5)); for (int i = 0; i < 8; i++) m.t.push_back({0, 1 + (i + 1) % 8, 1 + i}); break; }
    case 10: { m.name = "soup"; unsigned s = 12345; auto rnd = [&] { s = s * 1103515245 + 12345; return int(s >> 16) % 9 / 2. - 2; }; for (int i = 0; i < 14; i++) { V a(rnd(), rnd(), rnd()), b(rnd(), rnd(), rnd()), c(rnd(), rnd(), rnd()); if ((b - a).cross(c - a).len() < .5) { continue; } int q = m.v.size(); m.v.push_back(a); m.v.push_back(b); m.v.push_back(c); m.t.push_back({q, q + 1, q + 2}); } break; }
    case 11: { m.name = "slender strip"; for (int i = 0; i <= 4; i++) { m.v.push_back(V(-2, i * .25, 0)); m.v.push_back(V(2, i * .25, i * .125)); } for (int i = 0; i < 4; i++) { m.t.push_back({2 * i, 2 * i + 1, 2 * i + 2}); m.t.push_back({2 * i + 2, 2 * i + 1, 2 * i + 3}); } break; }
    case 12: m = grid(9, 9, [](int i, int j) { return ((i * i + 3 * j) % 5) * .25 + (i == 4) * 1.5; }, "large grid"); break;
    default: { m.name = "octasphere"; Mesh o = meshOcta(2, 1.5, 2); m.v = o.v; for (auto& f : o.f) { V a = o.v[f[0]], b = o.v[f[1]], c = o.v[f[2]], n = (b - a).cross(c - a); int i = f[1], j = f[2]; if (n.dot(a) < 0) std::swap(i, j); m.t.push_back({f[0], i, j}); } break; } } return m; }
static const int NMESH = 14;
struct Placed : tri::Placed { TriangleMesh* mesh; ConcaveMeshShape* shape; };
static Placed place(Run& r, PhysicsCommon& pc, PhysicsWorld* w, const TM& m, const V& sc, bool viaSet, const Transform& bt, const Transform& lt, int unused = -1) {
    Placed p; std::vector<float> v; std::vector<unsigned> ix; for (auto& q : m.v) { v.push_back(q.x); v.push_back(q.y); v.push_back(q.z); } for (auto& t : m.t) for (int i : t) ix.push_back(i);
    TriangleVertexArray a(m.v.size(), v.data(), 12, m.t.size(), ix.data(), 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); std::vector<Message> ms; std::vector<float> un; std::vector<V> given;
    if (unused >= 0) { // the same mesh with normals of the user and with vertices that no triangle uses before vertex 'unused' and, every other time, at the end
        for (size_t i = 0; i < m.v.size(); i++) { V n = V(std::sin(1. + i), 1.5 + std::cos(3. * i), std::sin(2. * i)) * (.5 + .1 * (i % 7)); given.push_back(n.unit()); un.push_back(n.x); un.push_back(n.y); un.push_back(n.z); }
        auto junk = [&](size_t at) { static const float J[3] = {55, -66, 77}; v.insert(v.begin() + 3 * at, J, J + 3); static const float N[3] = {0, 0, 1}; un.insert(un.begin() + 3 * at, N, N + 3); for (auto& i : ix) if (i >= at) i++; }; junk(unused); if (unused % 2) junk(v.size() / 3); if (unused % 3 == 2) junk(unused);
        TriangleVertexArray a2(v.size() / 3, v.data(), 12, un.data(), 12, m.t.size(), ix.data(), 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::NormalDataType::NORMAL_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); p.mesh = pc.createTriangleMesh(a2, ms); }
    else p.mesh = pc.createTriangleMesh(a, ms); MC_CHECK(r, p.mesh, "mesh-rejected", "%s: %s", m.name.c_str(), ms.empty() ? "" : ms[0].text.c_str());
    p.shape = pc.createConcaveMeshShape(p.mesh, viaSet ? Vector3(3, decimal(.5), 1) : sc.r()); if (viaSet) p.shape->setScale(sc.r()); p.body = w->createRigidBody(bt); p.body->setType(BodyType::STATIC); p.c = p.body->addCollider(p.shape, lt);
    geo::T T = geo::T(bt) * geo::T(lt); V S(sc.r()); char b[400]; snprintf(b, 400, "%s scaled by %s%s at %s", m.name.c_str(), geo::str(S).c_str(), viaSet ? " (setScale)" : "", geo::str(T.p).c_str()); p.name = b;
    MC_CHECK(r, p.mesh->getNbTriangles() == m.t.size() && p.mesh->getNbVertices() == m.v.size() && p.shape->getNbTriangles() == m.t.size() && p.shape->getNbVertices() == m.v.size(), "counts", "%s: %u triangles, %u vertices", b, p.mesh->getNbTriangles(), p.mesh->getNbVertices());
    std::vector<V> loc; for (size_t i = 0; i < m.v.size(); i++) { V q(m.v[i].x * S.x, m.v[i].y * S.y, m.v[i].z * S.z); loc.push_back(q); p.s.v.push_back(T * q); Vector3 g = p.shape->getVertex(i); MC_CHECK(r, (V(g) - q).len() <= 1e-6 * (1 + q.len()), "vertex", "%s: vertex %zu is %s", b, i, str(g).c_str());
        Vector3 n0 = p.mesh->getVertexNormal(i); if (unused >= 0) MC_CHECK(r, (V(n0).unit() - given[i]).len() < 1e-5, "user-normal", "%s: normal of vertex %zu is %s, given %s", b, i, str(n0).c_str(), geo::str(given[i]).c_str()); V e(n0.x / S.x, n0.y / S.y, n0.z / S.z); e = e.unit(); Vector3 n1 = p.shape->getVertexNormal(i); MC_CHECK(r, (V(n1) - e).len() < 1e-4, "vertex-normal", "%s: normal of vertex %zu is %s, expected %s", b, i, str(n1).c_str(), geo::str(e).c_str()); p.s.n.push_back(T.R * e); }
    p.s.t = m.t; for (size_t k = 0; k < m.t.size(); k++) { Vector3 x[3], n[3]; uint32 id[3]; p.shape->getTriangleVertices(k, x[0], x[1], x[2]); p.shape->getTriangleVerticesNormals(k, n[0], n[1], n[2]); p.shape->getTriangleVerticesIndices(k, id[0], id[1], id[2]); for (int i = 0; i < 3; i++) MC_CHECK(r, (int)id[i] == m.t[k][i] && (V(x[i]) - loc[m.t[k][i]]).len() < 1e-5 * (1 + loc[m.t[k][i]].len()) && dist(n[i], p.shape->getVertexNormal(m.t[k][i])) < 1e-5, "triangle", "%s: triangle %zu", b, k); }
    AABB lb = p.shape->getLocalBounds(), wb = p.c->getWorldAABB(); V lo = lb.getMin(), hi = lb.getMax(); for (int i = 0; i < 3; i++) MC_CHECK(r, lo[i] <= hi[i], "bounds", "%s: local bounds %s..%s", b, geo::str(lo).c_str(), geo::str(hi).c_str());
    for (size_t i = 0; i < loc.size(); i++) { double e = 1e-5 * (1 + p.s.v[i].len() + loc[i].len()); for (int k = 0; k < 3; k++) { MC_CHECK(r, loc[i][k] >= lo[k] - e && loc[i][k] <= hi[k] + e, "bounds", "%s: local bounds %s..%s do not contain vertex %s", b, geo::str(lo).c_str(), geo::str(hi).c_str(), geo::str(loc[i]).c_str()); MC_CHECK(r, p.s.v[i][k] >= V(wb.getMin())[k] - e && p.s.v[i][k] <= V(wb.getMax())[k] + e, "world-bounds", "%s: world AABB %s..%s does not contain vertex %s", b, str(wb.getMin()).c_str(), str(wb.getMax()).c_str(), geo::str(p.s.v[i]).c_str()); } }
    r.transition(); return p; }
using tri::castAll; using tri::Pose; using tri::poses; using tri::convexes;
static std::vector<V> scales(bool th) { std::vector<V> s = {V(1, 1, 1), V(2, .5, 3), V(.25, .25, .25), V(8, 8, 8), V(-1, 1, 1), V(1, -2, -.5), V(-.5, -.5, -1), V(.002, .002, .002)}; if (th) { s.push_back(V(.1, 5, 1)); s.push_back(V(40, 40, 40)); s.push_back(V(1, -1, 1)); s.push_back(V(1, 1, -1.5)); } return s; }
static void unusedVertices(Run& r) { TM m = named(r.choose(NMESH)); V sc = r.pick(std::vector<V>{V(1, 1, 1), V(2, .5, 3), V(1, -2, -.5)}); int u = r.choose(std::min<int>(m.v.size() + 1, 40)); PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, m, sc, false, Transform(), Transform(), u); if (u < 6) castAll(r, p, w, 0, false); mc::Hash h; h.s(p.name.c_str()); h.u(u); r.state(h.h); }
static void rays(Run& r) { TM m = named(r.choose(NMESH)); V sc = r.pick(scales(r.thorough)); Pose po = poses()[r.choose(4)]; int side = r.choose(3); bool via = r.flip(); if (via && !r.thorough && m.t.size() > 12) r.prune();
    PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, m, sc, via, po.b, po.l); p.shape->setRaycastTestType(tri::rsSide(side)); castAll(r, p, w, side, r.thorough || m.t.size() < 10); mc::Hash h; h.s(p.name.c_str()); r.state(h.h); }
static void bounds(Run& r) { TM m = named(r.choose(NMESH)); V sc = r.pick(scales(true)); bool via = r.flip(); PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, m, sc, via, Transform(), Transform()); std::vector<V> loc; for (auto& v : m.v) { V S(sc.r()); loc.push_back(V(v.x * S.x, v.y * S.y, v.z * S.z)); } tri::boundsEverywhere(r, p, loc, p.shape->getLocalBounds()); mc::Hash h; h.s(p.name.c_str()); r.state(h.h); }
// rays along the lattice of the vertices: through vertices, edges and borders, where float arithmetic is exact
static void lattice(Run& r) { static const int K[] = {0, 1, 3, 4, 5, 6, 7, 8}; TM m = named(K[r.choose(8)]); V sc = r.pick(std::vector<V>{V(1, 1, 1), V(2, .5, 4), V(-1, 1, 1), V(-.5, -2, -1)}); int side = r.choose(3); Transform bt; if (r.flip()) bt.setPosition(Vector3(4, -2, 1)); int axis = r.choose(r.thorough ? 5 : 4); bool neg = r.flip();
    PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, m, sc, false, bt, Transform()); p.shape->setRaycastTestType(tri::rsSide(side)); V o(bt.getPosition());
    for (double x = -3; x <= 3; x += .25) for (double y = -3; y <= 3; y += .25) { V a, d; switch (axis) { case 0: a = V(8, x, y); d = V(-16, 0, 0); break; case 1: a = V(x, 8, y); d = V(0, -16, 0); break; case 2: a = V(x, y, 8); d = V(0, 0, -16); break; case 3: a = V(x - 4, y + 4, 4); d = V(8, -8, -8); break; default: a = V(x - 8, 4, y); d = V(16, -8, 0); break; }
        if (neg) { a = a + d; d = -d; } V A(a.x * sc.x, a.y * sc.y, a.z * sc.z), D(d.x * sc.x, d.y * sc.y, d.z * sc.z); tri::castOne(r, p.s, w, p.c, o + A, o + A + D, 1, side, true, true, p.name); } }
// every mesh of one or two triangles over five vertices
static void pairsRays(Run& r) { static const V P[5] = {V(-1, 0, -1), V(1.5, .5, -1), V(0, -.5, 1.5), V(.25, 1.5, .25), V(-1, 1, 1)}; static const int C[10][3] = {{0,1,2},{0,1,3},{0,1,4},{0,2,3},{0,2,4},{0,3,4},{1,2,3},{1,2,4},{1,3,4},{2,3,4}}; TM m; m.name = "triangles"; std::map<int, int> id; auto add = [&](int c, bool flip) { std::array<int, 3> t; for (int i = 0; i < 3; i++) { int v = C[c][flip ? 2 - i : i]; if (!id.count(v)) { id[v] = m.v.size(); m.v.push_back(P[v]); } t[i] = id[v]; } m.t.push_back(t); char b[20]; snprintf(b, 20, " %d%d%d", t[0], t[1], t[2]); m.name += b; };
    int a = r.choose(10); add(a, false); int b = r.choose(11); if (b) add(b - 1, r.flip()); int side = r.choose(3); V sc = r.pick(std::vector<V>{V(1, 1, 1), V(1, -2, .5)}); PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, m, sc, false, Transform(), Transform()); p.shape->setRaycastTestType(tri::rsSide(side)); castAll(r, p, w, side, false); }
static void collide(Run& r) { TM m = named(r.choose(NMESH)); V sc = r.pick(std::vector<V>{V(1, 1, 1), V(2, .5, 3), V(-1, 1, 1), V(1, -2, -.5), V(.5, .5, .5)}); Pose po = poses()[r.choose(r.thorough ? 4 : 3)]; Spec cs = convexes()[r.choose(7)]; bool convexFirst = r.flip(); if (convexFirst && !r.thorough && po.b.getPosition().x == 3) r.prune(); Quaternion q = rotations()[r.choose(r.thorough ? 6 : 3)];
    PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); RigidBody* b = nullptr; CollisionShape* sh = makeShape(pc, cs); auto mk = [&] { b = w->createRigidBody(Transform(Vector3(0, 500, 0), q)); b->addCollider(sh, Transform()); }; if (convexFirst) mk(); Placed p = place(r, pc, w, m, sc, false, po.b, po.l); if (!convexFirst) mk(); geo::Solid base = solidOf(cs);
    uint64_t touch = tri::collideAll(r, p, w, b, base, cs.name, q, r.thorough ? 6 : 4);
    mc::Hash h; h.s(p.name.c_str()); h.s(cs.name.c_str()); h.u(touch); r.state(h.h); }
// a ball in a bowl of separate facets touches more of them than a pair of colliders has manifolds: the deepest contact must be among the reported ones
static void bowl(Run& r) { int n = 4 + r.choose(5); double tilt = r.choose(2) ? .6 : 1.1; int rot = r.choose(n); bool rev = r.flip(), ballFirst = r.flip(); TM m; m.name = "bowl"; std::vector<std::pair<V, V>> pl;
    for (int q = 0; q <= n; q++) { int k = (q + rot) % (n + 1); if (rev) k = n - k; double a = 2 * M_PI * k / n + .2; V nr = k == n ? V(0, 1, 0) : V(-std::sin(tilt) * std::cos(a), std::cos(tilt), -std::sin(tilt) * std::sin(a)); V c = nr * -1.0, u = (k == n ? V(1, 0, 0) : V(-std::sin(a), 0, std::cos(a))), v = nr.cross(u); double w = .45; int b = m.v.size(); m.v.push_back(c + u * w - v * (w * .6)); m.v.push_back(c - u * w - v * (w * .6)); m.v.push_back(c + v * w); V fn = (m.v[b + 1] - m.v[b]).cross(m.v[b + 2] - m.v[b]); if (fn.dot(nr) > 0) m.t.push_back({b, b + 1, b + 2}); else m.t.push_back({b, b + 2, b + 1}); pl.push_back({c, nr}); }
    PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); RigidBody* b = nullptr; CollisionShape* sh = makeShape(pc, S0(1.05)); auto mk = [&] { b = w->createRigidBody(Transform()); b->addCollider(sh, Transform()); b->enableGravity(false); }; if (ballFirst) mk(); Placed p = place(r, pc, w, m, V(1, 1, 1), false, Transform(), Transform()); if (!ballFirst) mk();
    struct L : rp3d::EventListener { tri::Contacts c; void onContact(const CollisionCallback::CallbackData& d) override { c.onContact(d); } } lis; w->setEventListener(&lis); MC_LOG(r, "bowl of %d facets tilted by %g, first facet %d%s, %s first", n + 1, tilt, rot, rev ? " reversed" : "", ballFirst ? "ball" : "bowl");
    for (double x = -.1; x <= .1; x += .05) for (double z = -.1; z <= .1; z += .05) for (double y = -.08; y <= .04; y += .04) { V at(x, y, z); b->setTransform(Transform(at.r(), Quaternion::identity())); double deep = -1; for (auto& q : pl) deep = std::max(deep, 1.05 - (at - q.first).dot(q.second)); tri::Contacts cb; w->testCollision(b, p.body, cb); b->setLinearVelocity(Vector3(0, 0, 0)); b->setAngularVelocity(Vector3(0, 0, 0)); lis.c.pts.clear(); w->update(decimal(1e-6)); r.transition(2); r.checked(2);
        for (auto* c : {&cb, &lis.c}) { double got = -1; for (auto& q : c->pts) got = std::max(got, q.depth); MC_CHECK(r, got > deep - .004 && got < deep + .004, "deepest-contact", "ball at %s: the deepest facet is penetrated by %.4g, but the deepest of the %d contact points reported by %s has depth %.4g", geo::str(at).c_str(), deep, (int)c->pts.size(), c == &cb ? "testCollision()" : "update()", got); } }
    mc::Hash h; h.u(n); h.u(rot); h.d(tilt); r.state(h.h); }
int main(int argc, char** argv) { return mc::main(argc, argv, propertyId("C24"), {
    {"rays", rays, "14 meshes (1 to 162 triangles: open, closed, two-sided, disconnected, soup, slender) x scales (uniform, non-uniform, mirrored) given at creation or by setScale() x 4 placements x 3 raycast sides; hundreds to thousands of rays each, through Collider::raycast and PhysicsWorld::raycast", 1},
    {"lattice", lattice, "axis-parallel and diagonal rays through the vertices, edges, borders and faces of 8 meshes on a lattice, 625 per direction, where single precision is exact, so that edges belong to the mesh", 1},
    {"triangles", pairsRays, "every mesh of one or two triangles (both windings) over five vertices x 3 sides x 2 scales", 1},
    {"unused", unusedVertices, "14 meshes with normals of the user and vertices that no triangle uses, inserted at every place (up to 40) x 3 scales: vertices, triangles, normals, bounds and rays are those of the mesh without them", 1},
    {"bounds", bounds, "14 meshes x 12 scales given at creation or by setScale(), moved through every pair of 4 body and 4 local placements: local bounds, world AABBs of the collider and the body", 1},
    {"collide", collide, "14 meshes x 5 scales x placements x 7 convex shapes x orientations x both creation orders, on a lattice of positions: testCollision() and testOverlap()", 1},
    {"bowl", bowl, "a ball on a lattice of 100 positions in bowls of 5 to 9 separate facets (2 tilts, every facet order by rotation and reversal, both creation orders): the deepest contact is reported by testCollision() and to the event listener", 1},
}, "Rays that pass within single-precision rounding of the border of a triangle, or nearly parallel to its plane, may hit it or not, except where all coordinates are dyadic\nMesh sizes from 0.25 to 400 units, rays at least as long as the mesh\nContacts: shapes within 0.01 of touching may be reported or not; contact points within 0.02 of a triangle, normals of the face or (on edges) interpolated from the vertex normals\nTriangles of no area are left to C23"); }
