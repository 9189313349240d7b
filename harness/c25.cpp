// Height fields (C25): samples, bounds, rays and collision queries must equal those of the triangulated surface of the samples.
#include "tri.h"
using namespace rp3d; using geo::V; using tri::castAll; using tri::Pose; using tri::poses; using tri::convexes;
struct HF { std::string name; int nc, nr; std::vector<double> h; };   // h[row * nc + column]
struct Placed : tri::Placed { HeightField* field; HeightFieldShape* shape; double mn, mx; };
enum Data { FLOAT, DOUBLE, INT };
static Placed place(Run& r, PhysicsCommon& pc, PhysicsWorld* w, const HF& f, Data dt, double ihs, const V& sc, bool viaSet, const Transform& bt, const Transform& lt) {
    Placed p; std::vector<float> hf; std::vector<double> hd; std::vector<int> hi; std::vector<double> val; for (double x : f.h) { hf.push_back((float)x); hd.push_back(x); hi.push_back((int)x); val.push_back(dt == INT ? (double)(float)((int)x * (float)ihs) : (double)(float)x); }
    std::vector<Message> ms; p.field = pc.createHeightField(f.nc, f.nr, dt == FLOAT ? (void*)hf.data() : dt == DOUBLE ? (void*)hd.data() : (void*)hi.data(), dt == FLOAT ? HeightField::HeightDataType::HEIGHT_FLOAT_TYPE : dt == DOUBLE ? HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE : HeightField::HeightDataType::HEIGHT_INT_TYPE, ms, decimal(ihs));
    MC_CHECK(r, p.field, "rejected", "%s: %s", f.name.c_str(), ms.empty() ? "" : ms[0].text.c_str()); for (auto& x : hf) x = 777; for (auto& x : hd) x = 777; for (auto& x : hi) x = 777;
    p.shape = pc.createHeightFieldShape(p.field, viaSet ? Vector3(3, decimal(.5), 1) : sc.r()); if (viaSet) p.shape->setScale(sc.r()); p.body = w->createRigidBody(bt); p.body->setType(BodyType::STATIC); p.c = p.body->addCollider(p.shape, lt);
    geo::T T = geo::T(bt) * geo::T(lt); V S(sc.r()); char b[400]; snprintf(b, 400, "%s (%dx%d %s) scaled by %s%s at %s", f.name.c_str(), f.nc, f.nr, dt == FLOAT ? "float" : dt == DOUBLE ? "double" : "int", geo::str(S).c_str(), viaSet ? " (setScale)" : "", geo::str(T.p).c_str()); p.name = b;
    double mn = *std::min_element(val.begin(), val.end()), mx = *std::max_element(val.begin(), val.end()), mag = std::max(std::fabs(mn), std::fabs(mx)); p.mn = mn; p.mx = mx; double he = 3e-7 * (mag + mx - mn) + 1e-6;
    MC_CHECK(r, (int)p.field->getNbColumns() == f.nc && (int)p.field->getNbRows() == f.nr, "counts", "%s: %u columns, %u rows", b, p.field->getNbColumns(), p.field->getNbRows()); MC_CHECK(r, p.field->getMinHeight() == (float)mn && p.field->getMaxHeight() == (float)mx, "min-max", "%s: heights %g..%g, expected %g..%g", b, (double)p.field->getMinHeight(), (double)p.field->getMaxHeight(), mn, mx);
    V half((f.nc - 1) / 2., (mx - mn) / 2, (f.nr - 1) / 2.); AABB fb = p.field->getBounds(); MC_CHECK(r, (V(fb.getMax()) - half).len() <= 4 * he && (V(fb.getMin()) + half).len() <= 4 * he, "bounds", "%s: bounds %s..%s, expected +-%s", b, str(fb.getMin()).c_str(), str(fb.getMax()).c_str(), geo::str(half).c_str());
    V sh(std::fabs(half.x * S.x), std::fabs(half.y * S.y), std::fabs(half.z * S.z)); AABB lb = p.shape->getLocalBounds(), wb = p.c->getWorldAABB(); double se = 4 * he * (1 + std::fabs(S.y)) + 1e-5 * sh.len(); MC_CHECK(r, (V(lb.getMax()) - sh).len() <= se && (V(lb.getMin()) + sh).len() <= se, "shape-bounds", "%s: bounds of the shape %s..%s, expected +-%s", b, str(lb.getMin()).c_str(), str(lb.getMax()).c_str(), geo::str(sh).c_str());
    for (int j = 0; j < f.nr; j++) for (int i = 0; i < f.nc; i++) { double h = val[j * f.nc + i]; MC_CHECK(r, p.field->getHeightAt(i, j) == (float)h, "height", "%s: height at column %d, row %d is %.9g, expected %.9g", b, i, j, (double)p.field->getHeightAt(i, j), h); V q(i - half.x, h - (mn + mx) / 2, j - half.z); Vector3 g = p.field->getVertexAt(i, j); MC_CHECK(r, (V(g) - q).len() <= 4 * he, "vertex", "%s: vertex (%d,%d) is %s, expected %s", b, i, j, str(g).c_str(), geo::str(q).c_str());
        V l(q.x * S.x, q.y * S.y, q.z * S.z), wv = T * l; p.s.v.push_back(wv); double e = se + 1e-5 * (1 + wv.len()); for (int k = 0; k < 3; k++) MC_CHECK(r, wv[k] >= V(wb.getMin())[k] - e && wv[k] <= V(wb.getMax())[k] + e, "world-bounds", "%s: world AABB %s..%s does not contain vertex %s", b, str(wb.getMin()).c_str(), str(wb.getMax()).c_str(), geo::str(wv).c_str()); }
    for (int j = 0; j + 1 < f.nr; j++) for (int i = 0; i + 1 < f.nc; i++) { int a = j * f.nc + i; p.s.t.push_back({a, a + f.nc, a + 1}); p.s.t.push_back({a + 1, a + f.nc, a + f.nc + 1}); }
    r.transition(); return p; }
static HF make(const char* n, int nc, int nr, std::function<double(int, int)> h) { HF f; f.name = n; f.nc = nc; f.nr = nr; for (int j = 0; j < nr; j++) for (int i = 0; i < nc; i++) f.h.push_back(h(i, j)); return f; }
static HF named(int k) { switch (k) {
    case 0: return make("bumps", 5, 4, [](int i, int j) { return (i * 7 + j * 5) % 3 - 1.; });
    case 1: return make("flat", 4, 4, [](int, int) { return 2.; });
    case 2: return make("plateau", 4, 3, [](int i, int j) { return 1000. + (i + j) % 2; });
    case 3: return make("cliff", 6, 3, [](int i, int) { return i < 3 ? 0. : 6.; });
    case 4: return make("strip", 9, 2, [](int i, int) { return i % 4 * 1.; });
    case 5: return make("strip across", 2, 9, [](int, int j) { return j * j % 5 * .5; });
    case 6: return make("pit", 5, 5, [](int i, int j) { return i == 2 && j == 2 ? -5. : 1.; });
    case 7: return make("spike at the corner", 3, 5, [](int i, int j) { return i == 2 && j == 4 ? 4. : 0.; });
    case 8: return make("slope", 7, 7, [](int i, int j) { return .5 * i - .25 * j; });
    default: return make("large", 12, 10, [](int i, int j) { return (i * i + 3 * j) % 7 * .5; }); } }
static const int NF = 10;
static std::vector<V> scales(bool th) { std::vector<V> s = {V(1, 1, 1), V(2, .5, 3), V(.25, .25, .25), V(8, 8, 8), V(-1, 1, 1), V(1, -2, -.5), V(-.5, -.5, -1), V(.002, .002, .002)}; if (th) { s.push_back(V(.2, 3, 1)); s.push_back(V(30, 30, 30)); s.push_back(V(1, -1, 1)); s.push_back(V(1, 1, -1.5)); } return s; }
static void rays(Run& r) { HF f = named(r.choose(NF)); V sc = r.pick(scales(r.thorough)); Pose po = poses()[r.choose(4)]; int side = r.choose(3); bool via = r.flip(); if (via && !r.thorough && po.b.getPosition().x != 0) r.prune(); PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, f, FLOAT, 1, sc, via, po.b, po.l); p.shape->setRaycastTestType(tri::rsSide(side)); castAll(r, p, w, side, r.thorough || p.s.t.size() < 30, false); mc::Hash h; h.s(p.name.c_str()); r.state(h.h); }
static void bounds(Run& r) { HF f = named(r.choose(NF)); V sc = r.pick(scales(true)); bool via = r.flip(); PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, f, FLOAT, 1, sc, via, Transform(), Transform()); tri::boundsEverywhere(r, p, p.s.v, p.shape->getLocalBounds()); mc::Hash h; h.s(p.name.c_str()); r.state(h.h); }
// every small grid of heights of a small set
static void small(Run& r) { static const int D[4][2] = {{2,2},{3,2},{2,3},{3,3}}; int k = r.choose(r.thorough ? 4 : 3); HF f; f.nc = D[k][0]; f.nr = D[k][1]; f.name = "grid"; static const double H[3] = {0, 1.5, -2}; int nh = k == 0 ? 3 : 2; for (int i = 0; i < f.nc * f.nr; i++) { double h = H[r.choose(nh)]; f.h.push_back(h); char b[20]; snprintf(b, 20, " %g", h); f.name += b; }
    int side = r.choose(3); V sc = r.pick(std::vector<V>{V(1, 1, 1), V(2, 1, .5), V(-1, 2, 1)}); PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, f, FLOAT, 1, sc, false, Transform(), Transform()); p.shape->setRaycastTestType(tri::rsSide(side)); castAll(r, p, w, side, false, false); }
// sample types, integer height scales, extreme heights
static void samples(Run& r) { int nc = 2 + r.choose(3), nr = 2 + r.choose(3); Data dt = (Data)r.choose(3); double ihs = dt == INT ? r.pick(std::vector<double>{1, .5, .01, 3, -1}) : 1; double off = r.pick(std::vector<double>{0, 100, -2000, 32767, 1e6}), amp = r.pick(std::vector<double>{0, 1, 30000, 123456}); if (amp == 123456 && dt != INT) amp = 12345.678; HF f = make("samples", nc, nr, [&](int i, int j) { return off + amp * ((i * 5 + j * 3 + i * j) % 4) / 3 + (dt == INT || !amp ? 0 : .37 * i); }); bool flip = r.flip(); if (flip) for (auto& x : f.h) x = -x;
    PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, f, dt, ihs, V(1, 1, 1), false, Transform(), Transform()); MC_CHECK(r, p.field->getHeightDataType() == (dt == FLOAT ? HeightField::HeightDataType::HEIGHT_FLOAT_TYPE : dt == DOUBLE ? HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE : HeightField::HeightDataType::HEIGHT_INT_TYPE), "data-type", "%s", p.name.c_str());
    // vertical rays inside the cells
    double top = (p.mx - p.mn) / 2 + 10; p.shape->setRaycastTestType(TriangleRaycastSide::FRONT_AND_BACK); for (double x = .3; x < nc - 1; x += .55) for (double z = .2; z < nr - 1; z += .45) tri::castOne(r, p.s, w, p.c, V(x - (nc - 1) / 2., top, z - (nr - 1) / 2.), V(x - (nc - 1) / 2., -top, z - (nr - 1) / 2.), 1, tri::BOTH, false, false, p.name); }
// rays along the lattice of the samples: through vertices, cell edges and borders, where float arithmetic is exact
static void lattice(Run& r) { HF f = r.choose(2) ? make("steps", 5, 3, [](int i, int j) { return (i + 2 * j) % 3 * 1.; }) : make("flat lattice", 3, 5, [](int, int) { return 1.; }); V sc = r.pick(std::vector<V>{V(1, 1, 1), V(2, .5, 4), V(-1, 1, 1), V(-.5, -2, -1)}); int side = r.choose(3); Transform bt; if (r.flip()) bt.setPosition(Vector3(4, -2, 1)); int axis = r.choose(5); bool neg = r.flip();
    PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); Placed p = place(r, pc, w, f, FLOAT, 1, sc, false, bt, Transform()); p.shape->setRaycastTestType(tri::rsSide(side)); V o(bt.getPosition()); bool exact = axis == 1;
    for (double x = -3; x <= 3; x += .25) for (double y = -3; y <= 3; y += .25) { V a, d; switch (axis) { case 0: a = V(8, x, y); d = V(-16, 0, 0); break; case 1: a = V(x, 8, y); d = V(0, -16, 0); break; case 2: a = V(x, y, 8); d = V(0, 0, -16); break; case 3: a = V(x - 4, y + 4, 4); d = V(8, -8, -8); break; default: a = V(x - 8, 4, y); d = V(16, -8, 0); break; }
        if (neg) { a = a + d; d = -d; } V A(a.x * sc.x, a.y * sc.y, a.z * sc.z), D(d.x * sc.x, d.y * sc.y, d.z * sc.z); tri::castOne(r, p.s, w, p.c, o + A, o + A + D, 1, side, exact, false, p.name); } }
static void collide(Run& r) { HF f = named(r.choose(NF)); V sc = r.pick(std::vector<V>{V(1, 1, 1), V(2, .5, 3), V(-1, 1, 1), V(1, -2, -.5), V(.5, .5, .5)}); Pose po = poses()[r.choose(r.thorough ? 4 : 3)]; Spec cs = convexes()[r.choose(7)]; bool convexFirst = r.flip(); if (convexFirst && !r.thorough && po.b.getPosition().x == 3) r.prune(); Quaternion q = rotations()[r.choose(r.thorough ? 6 : 3)];
    PageAllocator al; PhysicsCommon pc(&al); PhysicsWorld* w = pc.createPhysicsWorld(); RigidBody* b = nullptr; CollisionShape* sh = makeShape(pc, cs); auto mk = [&] { b = w->createRigidBody(Transform(Vector3(0, 500, 0), q)); b->addCollider(sh, Transform()); }; if (convexFirst) mk(); Placed p = place(r, pc, w, f, FLOAT, 1, sc, false, po.b, po.l); if (!convexFirst) mk(); geo::Solid base = solidOf(cs);
    uint64_t touch = tri::collideAll(r, p, w, b, base, cs.name, q, r.thorough ? 6 : 4); mc::Hash h; h.s(p.name.c_str()); h.s(cs.name.c_str()); h.u(touch); r.state(h.h); }
int main(int argc, char** argv) { return mc::main(argc, argv, propertyId("C25"), {
    {"rays", rays, "10 fields (flat, plateau far from 0, cliff, strips, pit, corner spike, slope, 12x10) x scales (uniform, non-uniform, mirrored) given at creation or by setScale() x 4 placements x 3 raycast sides; hundreds to thousands of rays each, through Collider::raycast and PhysicsWorld::raycast", 1},
    {"small", small, "every 2x2 grid over three heights and every 2x3 and 3x2 (thorough: 3x3) grid over two heights x 3 sides x 3 scales", 1},
    {"samples", samples, "grids of 2..4 columns and rows x float, double, integer samples x integer height scales x offsets up to 1e6 x amplitudes up to 1e5 x sign: samples, vertices, bounds, vertical rays", 1},
    {"lattice", lattice, "axis-parallel and diagonal rays through the samples, cell edges and borders, 625 per direction; for vertical rays single precision is exact, so that edges and borders belong to the field", 1},
    {"bounds", bounds, "10 fields x 12 scales given at creation or by setScale(), moved through every pair of 4 body and 4 local placements: local bounds, world AABBs of the collider and the body", 1},
    {"collide", collide, "10 fields x 5 scales x placements x 7 convex shapes x orientations x both creation orders, on a lattice of positions: testCollision() and testOverlap()", 1},
}, "Rays that pass within single-precision rounding of the border of a triangle, or nearly parallel to its plane, may hit it or not, except vertical rays on dyadic coordinates\nThe triangulation of a cell is the diagonal from (column, row+1) to (column+1, row)\nContacts: shapes within 0.01 of touching may be reported or not; contact points within 0.02 of a triangle, normals those of the face"); }
