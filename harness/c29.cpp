// Debug renderer (C29): after every update the lines and triangles must be exactly those of the displayed items of the objects
// that exist, are active and have debugging enabled.  Contacts come from a twin world without rendering that gets the same calls.
#include "cat.h"
#include <list>
#include <array>
#include <functional>
using namespace rp3d; using geo::V; typedef DebugRenderer DR; typedef DR::DebugItem DI; typedef DR::DebugColor DC;
static const DI ITEMS[6] = {DI::COLLIDER_AABB, DI::COLLIDER_BROADPHASE_AABB, DI::COLLISION_SHAPE, DI::CONTACT_POINT, DI::CONTACT_NORMAL, DI::COLLISION_SHAPE_NORMAL};
static const uint32 COLOR[6] = {(uint32)DC::MAGENTA, (uint32)DC::YELLOW, (uint32)DC::GREEN, (uint32)DC::RED, (uint32)DC::WHITE, (uint32)DC::BLUE};
typedef std::array<V, 3> Tri; typedef std::array<V, 2> Lin;
enum { KMESH = 100, KFIELD = 101 };
struct Shape { CollisionShape* s[2]; Spec spec; int kind; std::vector<V> vs; std::vector<std::array<int, 3>> ts; int nc = 0; };
struct Col { Collider* c[2]; Shape* sh; };
struct Bdy { RigidBody* b[2]; bool debug = false, active = true; std::vector<Col> cols; };
struct Point { V p, n; };
struct Lis : EventListener { std::vector<Point> pts; void onContact(const CollisionCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); if (p.getEventType() == CollisionCallback::ContactPair::EventType::ContactExit) continue; for (uint32 k = 0; k < p.getNbContactPoints(); k++) { auto c = p.getContactPoint(k); pts.push_back({V(p.getCollider1()->getLocalToWorldTransform() * c.getLocalPointOnCollider1()), V(c.getWorldNormal())}); } } } };
static bool same(const V& a, const V& b, double tol = 2e-4) { return std::fabs(a.x - b.x) < tol && std::fabs(a.y - b.y) < tol && std::fabs(a.z - b.z) < tol; }
struct Sys { Run& r; PageAllocator al; PhysicsCommon pc{&al}; PhysicsWorld* w[2]; Lis lis, lisA; std::vector<Bdy> bs; std::list<Shape> shapes; std::string hist; bool on = false, item[6] = {}; double radius = .1, nlen = 1; bool moving;
    Sys(Run& r_, bool listener, bool moving_) : r(r_), moving(moving_) { for (int i = 0; i < 2; i++) { PhysicsWorld::WorldSettings s; if (!moving) s.gravity = Vector3(0, 0, 0); w[i] = pc.createPhysicsWorld(s); } w[1]->setEventListener(&lis); if (listener) w[0]->setEventListener(&lisA); }
    void did(const char* f, ...) __attribute__((format(printf, 2, 3))) { char b[160]; va_list ap; va_start(ap, f); vsnprintf(b, 160, f, ap); va_end(ap); hist += " "; hist += b; hist += ";"; MC_LOG(r, "%s", b); r.transition(); }
    Shape* shape(const Spec& sp) { shapes.emplace_back(); Shape& s = shapes.back(); s.spec = sp; s.kind = sp.kind; for (int i = 0; i < 2; i++) s.s[i] = sp.kind < KMESH ? makeShape(pc, sp) : concave(s); return &s; }
    CollisionShape* concave(Shape& s) { std::vector<Message> ms; V k = s.spec.scale; s.vs.clear(); s.ts.clear(); if (s.kind == KMESH) { static const float v[] = {-2,0,-2, 2,.25f,-2, 2,0,2, -2,.5f,2, 0,-.25f,.5f}; static const unsigned ix[] = {4,1,0, 4,2,1, 4,3,2, 4,0,3}; TriangleVertexArray a(5, v, 12, 4, ix, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); auto* m = pc.createTriangleMesh(a, ms); for (int i = 0; i < 5; i++) s.vs.push_back(V(v[3 * i] * k.x, v[3 * i + 1] * k.y, v[3 * i + 2] * k.z)); for (int i = 0; i < 4; i++) s.ts.push_back({(int)ix[3 * i], (int)ix[3 * i + 1], (int)ix[3 * i + 2]}); return pc.createConcaveMeshShape(m, k.r()); }
        static const float h[] = {0,.25f,0,0, .5f,.25f,0,.5f, 0,-.5f,.25f,0}; auto* f = pc.createHeightField(4, 3, h, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, ms); s.nc = 4; for (int j = 0; j < 3; j++) for (int i = 0; i < 4; i++) s.vs.push_back(V((i - 1.5) * k.x, h[j * 4 + i] * k.y, (j - 1.) * k.z)); for (int j = 0; j < 2; j++) for (int i = 0; i < 3; i++) { int a = j * 4 + i; s.ts.push_back({a, a + 4, a + 1}); s.ts.push_back({a + 1, a + 4, a + 5}); } return pc.createHeightFieldShape(f, k.r()); }
    int body(const Transform& t, BodyType type) { Bdy b; for (int i = 0; i < 2; i++) { b.b[i] = w[i]->createRigidBody(t); b.b[i]->setType(type); } bs.push_back(b); did("body %zu at %s", bs.size() - 1, str(t.getPosition()).c_str()); return (int)bs.size() - 1; }
    void collider(int i, Shape* s, const Transform& l) { Col c; c.sh = s; for (int k = 0; k < 2; k++) c.c[k] = bs[i].b[k]->addCollider(s->s[k], l); bs[i].cols.push_back(c); did("body %d: collider with %s", i, s->spec.name.c_str()); }
    void show(int i, bool v) { did("item %d %s", i, v ? "on" : "off"); item[i] = v; w[0]->getDebugRenderer().setIsDebugItemDisplayed(ITEMS[i], v); for (int k = 0; k < 6; k++) MC_CHECK(r, w[0]->getDebugRenderer().getIsDebugItemDisplayed(ITEMS[k]) == item[k], "item-flag", "item %d displayed: %d, after%s", k, !item[k], hist.c_str()); }
    void render(bool v) { did("rendering %s", v ? "on" : "off"); on = v; w[0]->setIsDebugRenderingEnabled(v); MC_CHECK(r, w[0]->getIsDebugRenderingEnabled() == v, "flag", "after%s", hist.c_str()); }
    void debug(int i, bool v) { did("body %d debug %s", i, v ? "on" : "off"); bs[i].debug = v; for (auto b : bs[i].b) b->setIsDebugEnabled(v); }
    void active(int i, bool v) { did("body %d %s", i, v ? "active" : "inactive"); bs[i].active = v; for (auto b : bs[i].b) b->setIsActive(v); }
    void destroy(int i) { did("destroy body %d", i); for (int k = 0; k < 2; k++) w[k]->destroyRigidBody(bs[i].b[k]); bs.erase(bs.begin() + i); }
    void drop(int i, int c) { did("body %d: remove collider %d", i, c); for (int k = 0; k < 2; k++) bs[i].b[k]->removeCollider(bs[i].cols[c].c[k]); bs[i].cols.erase(bs[i].cols.begin() + c); }
    void move(int i, const Transform& t) { did("move body %d to %s", i, str(t.getPosition()).c_str()); for (auto b : bs[i].b) b->setTransform(t); }
    struct Got { std::vector<Lin> l[6]; std::vector<Tri> t[6]; };
    const char* ctx() { return hist.c_str(); }
    Got read() { Got g; DR& d = w[0]->getDebugRenderer(); uint32 nl = d.getNbLines(), nt = d.getNbTriangles(); const DR::DebugLine* L = d.getLinesArray(); const DR::DebugTriangle* T = d.getTrianglesArray(); MC_CHECK(r, d.getLines().size() == nl && d.getTriangles().size() == nt, "counts", "array sizes differ from the counts after%s", ctx());
        auto item_ = [&](uint32 c, const char* what) { for (int i = 0; i < 6; i++) if (COLOR[i] == c) return i; r.fail("color", "a %s has color %06x after%s", what, c, ctx()); return 0; };
        for (uint32 i = 0; i < nl; i++) { MC_CHECK(r, L[i].color1 == L[i].color2, "color", "line with two colors after%s", ctx()); g.l[item_(L[i].color1, "line")].push_back({V(L[i].point1), V(L[i].point2)}); }
        for (uint32 i = 0; i < nt; i++) { MC_CHECK(r, T[i].color1 == T[i].color2 && T[i].color1 == T[i].color3, "color", "triangle with several colors after%s", ctx()); g.t[item_(T[i].color1, "triangle")].push_back({V(T[i].point1), V(T[i].point2), V(T[i].point3)}); } return g; }
    static bool takeLine(std::vector<Lin>& v, const V& a, const V& b, bool directed, double tol = 2e-4) { for (size_t i = 0; i < v.size(); i++) if ((same(v[i][0], a, tol) && same(v[i][1], b, tol)) || (!directed && same(v[i][0], b, tol) && same(v[i][1], a, tol))) { v[i] = v.back(); v.pop_back(); return true; } return false; }
    void boxEdges(const V& lo, const V& hi, std::vector<Lin>& e) { auto P = [&](int k) { return V(k & 1 ? hi.x : lo.x, k & 2 ? hi.y : lo.y, k & 4 ? hi.z : lo.z); }; for (int k = 0; k < 8; k++) for (int b = 1; b < 8; b <<= 1) if (!(k & b)) e.push_back({P(k), P(k | b)}); }
    // the triangles must be a closed surface, wound outwards, on the surface of a convex solid, with its area and volume
    void closed(const std::vector<Tri>& ts, const geo::Solid& s, const char* what) { std::vector<V> vs; auto id = [&](const V& p) { for (size_t i = 0; i < vs.size(); i++) if (same(vs[i], p, 1e-3)) return (int)i; vs.push_back(p); return (int)vs.size() - 1; }; std::map<std::pair<int, int>, int> e; double vol = 0, area = 0; V c = s.centre();
        for (auto& t : ts) { int a = id(t[0]), b = id(t[1]), d = id(t[2]); e[{a, b}]++; e[{b, d}]++; e[{d, a}]++; vol += (t[0] - c).dot((t[1] - c).cross(t[2] - c)) / 6; area += (t[1] - t[0]).cross(t[2] - t[0]).len() / 2; }
        for (auto& q : e) if (q.first.first != q.first.second) { auto o = e.find({q.first.second, q.first.first}); MC_CHECK(r, o != e.end() && o->second == q.second && q.second == 1, "shape-surface", "%s: the drawn triangles do not form a closed surface (edge %s - %s), after%s", what, geo::str(vs[q.first.first]).c_str(), geo::str(vs[q.first.second]).c_str(), ctx()); }
        double tv = 0, ta = 0; if (s.f.size()) for (size_t i = 0; i < s.f.size(); i++) for (size_t k = 2; k < s.f[i].size(); k++) { const V &A = s.v[s.f[i][0]], &B = s.v[s.f[i][k - 1]], &C = s.v[s.f[i][k]]; tv += (A - c).dot((B - c).cross(C - c)) / 6; ta += (B - A).cross(C - A).len() / 2; } else { double R = s.radius, h = s.kind == 1 ? (s.v[0] - s.v[1]).len() : 0; tv = 4 * M_PI / 3 * R * R * R + M_PI * R * R * h; ta = 4 * M_PI * R * R + 2 * M_PI * R * h; }
        double low = s.f.size() ? .999 : .85, high = 1.001; r.checked(); MC_CHECK(r, vol >= low * tv && vol <= high * tv, "shape-volume", "%s: the drawn surface encloses %.5g, the shape %.5g, after%s", what, vol, tv, ctx()); MC_CHECK(r, area >= low * ta && area <= high * ta, "shape-area", "%s: drawn area %.5g, expected %.5g, after%s", what, area, ta, ctx()); }
    void check() { Got g = read(); r.checked(); struct Vis { Bdy* b; Col* c; geo::T t; geo::Solid s; std::string what; std::vector<Tri> mine; }; std::vector<Vis> vis; int nb = 0; for (auto& b : bs) { if (b.active && b.debug) for (auto& c : b.cols) { Vis v; v.b = &b; v.c = &c; v.t = geo::T(b.b[0]->getTransform()) * geo::T(c.c[0]->getLocalToBodyTransform()); if (c.sh->kind < KMESH) v.s = geo::place(solidOf(c.sh->spec), v.t); v.what = "body " + std::to_string(nb) + ", " + c.sh->spec.name; vis.push_back(v); } nb++; }
        for (int i = 0; i < 6; i++) if (!item[i]) MC_CHECK(r, g.l[i].empty() && g.t[i].empty(), "item-hidden", "item %d is not displayed, but %zu lines and %zu triangles of it are there, after%s", i, g.l[i].size(), g.t[i].size(), ctx());
        MC_CHECK(r, g.t[0].empty() && g.t[1].empty() && g.l[2].empty() && g.l[3].empty() && g.t[4].empty() && g.t[5].empty(), "kind", "unexpected primitives after%s", ctx());
        if (item[0]) { for (auto& v : vis) { AABB a = v.c->c[0]->getWorldAABB(); std::vector<Lin> e; boxEdges(V(a.getMin()), V(a.getMax()), e); for (auto& l : e) MC_CHECK(r, takeLine(g.l[0], l[0], l[1], false), "aabb", "%s: the edge %s - %s of its AABB is not drawn, after%s", v.what.c_str(), geo::str(l[0]).c_str(), geo::str(l[1]).c_str(), ctx()); } MC_CHECK(r, g.l[0].empty(), "aabb-extra", "%zu AABB lines too many after%s", g.l[0].size(), ctx()); }
        if (item[1]) { auto& L = g.l[1]; MC_CHECK(r, L.size() == vis.size() * 12, "fat-aabb", "%zu lines for the broad-phase AABBs of %zu colliders, after%s", L.size(), vis.size(), ctx()); std::vector<int> comp(L.size()); for (size_t i = 0; i < L.size(); i++) comp[i] = (int)i; for (bool ch = true; ch;) { ch = false; for (size_t i = 0; i < L.size(); i++) for (size_t k = 0; k < L.size(); k++) if (comp[k] < comp[i] && (same(L[i][0], L[k][0], 1e-6) || same(L[i][0], L[k][1], 1e-6) || same(L[i][1], L[k][0], 1e-6) || same(L[i][1], L[k][1], 1e-6))) { comp[i] = comp[k]; ch = true; } }
            std::map<int, std::vector<Lin>> boxes; for (size_t i = 0; i < L.size(); i++) boxes[comp[i]].push_back(L[i]); std::vector<std::pair<V, V>> bb; for (auto& q : boxes) { V lo(1e300, 1e300, 1e300), hi = -lo; for (auto& l : q.second) for (auto& p : l) { lo = V(std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z)); hi = V(std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z)); } std::vector<Lin> e; boxEdges(lo, hi, e); auto rest = q.second; for (auto& l : e) MC_CHECK(r, takeLine(rest, l[0], l[1], false), "fat-aabb", "a broad-phase AABB is not drawn as a box, after%s", ctx()); MC_CHECK(r, rest.empty(), "fat-aabb", "a broad-phase AABB is drawn twice after%s", ctx()); bb.push_back({lo, hi}); }
            std::vector<char> used(bb.size()); for (auto& v : vis) { AABB a = v.c->c[0]->getWorldAABB(); V lo(a.getMin()), hi(a.getMax()); int best = -1; double bd = 1e300; for (size_t i = 0; i < bb.size(); i++) { if (used[i]) continue; bool in = true; for (int k = 0; k < 3; k++) if (bb[i].first[k] > lo[k] + 1e-4 || bb[i].second[k] < hi[k] - 1e-4) in = false; double d = (bb[i].second - bb[i].first).len() - (hi - lo).len(); if (in && d < bd) { bd = d; best = (int)i; } } MC_CHECK(r, best >= 0, "fat-aabb", "%s: no broad-phase AABB is drawn around it, after%s", v.what.c_str(), ctx()); used[best] = 1; MC_CHECK(r, bd <= 1.3 * (hi - lo).len() + .1, "fat-aabb", "%s: its broad-phase AABB is drawn too large, after%s", v.what.c_str(), ctx()); } }
        if (item[2]) { for (auto& t : g.t[2]) { bool found = false; for (auto& v : vis) { if (v.c->sh->kind >= KMESH) continue; double R = v.s.radius, tol = 3e-4; bool on_ = true; for (auto& p : t) if (std::fabs(geo::pointSolid(v.s, p)) > tol) on_ = false; if (!on_) continue; V m = (t[0] + t[1] + t[2]) * (1 / 3.); double dm = geo::pointSolid(v.s, m); if (R > 0 ? dm < -.15 * R || dm > tol : std::fabs(dm) > tol) continue; v.mine.push_back(t); found = true; break; }
                if (!found) for (auto& v : vis) { if (v.c->sh->kind < KMESH) continue; bool in = false; for (auto& q : v.c->sh->ts) { bool ok = true; for (auto& p : t) if (!same(p, v.t * v.c->sh->vs[q[0]]) && !same(p, v.t * v.c->sh->vs[q[1]]) && !same(p, v.t * v.c->sh->vs[q[2]])) ok = false; if (ok) in = true; } if (in) { v.mine.push_back(t); found = true; break; } }
                MC_CHECK(r, found, "shape-extra", "the triangle %s %s %s belongs to no displayed shape, after%s", geo::str(t[0]).c_str(), geo::str(t[1]).c_str(), geo::str(t[2]).c_str(), ctx()); }
            for (auto& v : vis) { if (v.c->sh->kind < KMESH) { closed(v.mine, v.s, v.what.c_str()); continue; } auto rest = v.mine; auto& sh = *v.c->sh; MC_CHECK(r, rest.size() == sh.ts.size(), "shape-triangles", "%s: %zu triangles drawn instead of %zu, after%s", v.what.c_str(), rest.size(), sh.ts.size(), ctx()); for (auto& q : sh.ts) { V A = v.t * sh.vs[q[0]], B = v.t * sh.vs[q[1]], C = v.t * sh.vs[q[2]]; bool ok = false; for (size_t i = 0; i < rest.size() && !ok; i++) for (int k = 0; k < 3; k++) if (same(rest[i][k], A) && same(rest[i][(k + 1) % 3], B) && same(rest[i][(k + 2) % 3], C)) { rest[i] = rest.back(); rest.pop_back(); ok = true; break; } MC_CHECK(r, ok, "shape-triangles", "%s: triangle %s %s %s is not drawn, after%s", v.what.c_str(), geo::str(A).c_str(), geo::str(B).c_str(), geo::str(C).c_str(), ctx()); } } }
        if (item[5]) { for (auto& v : vis) { auto& sh = *v.c->sh; auto want = [&](const V& p, const V& n) { MC_CHECK(r, takeLine(g.l[5], p, p + n, true, 5e-4), "shape-normal", "%s: the normal %s at %s is not drawn, after%s", v.what.c_str(), geo::str(n).c_str(), geo::str(p).c_str(), ctx()); };
                if (sh.kind == 2 || sh.kind == 3) for (size_t f = 0; f < v.s.f.size(); f++) { V c; for (int i : v.s.f[f]) c = c + v.s.v[i]; want(c * (1. / v.s.f[f].size()), v.s.fn(f)); }
                if (sh.kind == KMESH) for (size_t i = 0; i < sh.vs.size(); i++) want(v.t * sh.vs[i], v.t.R * V(((ConcaveMeshShape*)sh.s[0])->getVertexNormal((uint32)i)));
                if (sh.kind == KFIELD) { size_t n = 0; for (size_t c = 0; c < sh.ts.size(); c += 2) for (int k = 0; k < 4; k++) { V p = v.t * sh.vs[k < 3 ? sh.ts[c][k] : sh.ts[c + 1][2]]; bool ok = false; for (int m = 0; m < 2 && !ok; m++) { auto& q = sh.ts[c + m]; V nn = (v.t * sh.vs[q[1]] - v.t * sh.vs[q[0]]).cross(v.t * sh.vs[q[2]] - v.t * sh.vs[q[0]]).unit(); ok = takeLine(g.l[5], p, p + nn, true, 5e-4) || takeLine(g.l[5], p, p - nn, true, 5e-4); } n++; MC_CHECK(r, ok, "shape-normal", "%s: no normal of its cell at %s, after%s", v.what.c_str(), geo::str(p).c_str(), ctx()); } } }
            MC_CHECK(r, g.l[5].empty(), "shape-normal-extra", "%zu shape normals too many (first %s - %s) after%s", g.l[5].size(), geo::str(g.l[5][0][0]).c_str(), geo::str(g.l[5][0][1]).c_str(), ctx()); }
        if (item[4]) { for (auto& p : lis.pts) MC_CHECK(r, takeLine(g.l[4], p.p, p.p + p.n * nlen, true), "contact-normal", "the normal %s of the contact point %s is not drawn, after%s", geo::str(p.n).c_str(), geo::str(p.p).c_str(), ctx()); MC_CHECK(r, g.l[4].empty(), "contact-normal-extra", "%zu contact normals too many after%s", g.l[4].size(), ctx()); }
        if (item[3]) { std::vector<std::vector<Tri>> mine(lis.pts.size()); for (auto& t : g.t[3]) { int best = -1; for (size_t i = 0; i < lis.pts.size(); i++) { bool ok = true; for (auto& p : t) if (std::fabs((p - lis.pts[i].p).len() - radius) > 2e-4) ok = false; if (ok && (best < 0 || mine[i].size() < mine[best].size())) best = (int)i; } MC_CHECK(r, best >= 0, "contact-point-extra", "a contact marker at %s is at no contact point, after%s", geo::str(t[0]).c_str(), ctx()); mine[best].push_back(t); }
            for (size_t i = 0; i < lis.pts.size(); i++) { bool alone = true; for (size_t k = 0; k < lis.pts.size(); k++) if (k != i && (lis.pts[i].p - lis.pts[k].p).len() < 2e-3) alone = false; geo::Solid s = geo::sphere(radius); s.v[0] = lis.pts[i].p; if (alone) closed(mine[i], s, "contact point"); else MC_CHECK(r, !mine[i].empty(), "contact-point", "no marker at %s after%s", geo::str(lis.pts[i].p).c_str(), ctx()); } } }
    uint32 offL = 0, offT = 0;
    void update(int n = 1) { for (int i = 0; i < n; i++) { DR& d = w[0]->getDebugRenderer(); offL = d.getNbLines(); offT = d.getNbTriangles(); lis.pts.clear(); w[0]->update(decimal(1 / 60.)); w[1]->update(decimal(1 / 60.)); did("update (%zu contact points)", lis.pts.size()); if (on) check(); else MC_CHECK(r, d.getNbLines() <= offL && d.getNbTriangles() <= offT, "off", "primitives added while rendering is off, after%s", ctx()); mc::Hash h; h.u(on); for (int k = 0; k < 6; k++) h.u(item[k]); h.u(lis.pts.size()); h.u(bs.size()); for (auto& b : bs) { h.u(b.debug); h.u(b.active); h.u(b.cols.size()); hashT(h, b.b[0]->getTransform()); } r.state(h.h); } }
};
static std::vector<Spec> kinds() { Spec m; m.kind = KMESH; m.name = "mesh"; Spec m2 = m; m2.scale = V(.5, 2, 1); m2.name = "scaled mesh"; Spec m3 = m; m3.scale = V(-1, 1, 1); m3.name = "mirrored mesh"; Spec f; f.kind = KFIELD; f.name = "field"; Spec f2 = f; f2.scale = V(2, .5, 1); f2.name = "scaled field"; return {S0(.5), S0(2), S1(.3, .9), S1(1, .25), S2(.5, .75, 1), S2(2, .125, .5), S3("tetrahedron", meshTetra(.6)), S3("octahedron", meshOcta(.6, .8, .5), V(1, 2, .5)), S3("box mesh", meshBox(.5, .4, .6)), S3("wedge", meshWedge()), S3("pentagonal prism", meshPrism(5, .7, 1)), S3("octagonal prism", meshPrism(8, .6, .5), V(1, 2, 1)), m, m2, m3, f, f2}; }
static std::vector<Transform> at() { return {Transform(), Transform(Vector3(3, -2, 5), axisAngle(1, 1, 0, .7)), Transform(Vector3(-10, 4, 1), axisAngle(0, 1, 0, M_PI)), Transform(Vector3(1, 2, 3), axisAngle(1, -2, 3, 2.3))}; }
// every set of items for every shape and placement
static void items(Run& r) { auto ks = kinds(); int k = r.choose((int)ks.size()), m = r.choose(64), p = r.choose(4), l = r.choose(2); Sys s(r, false, false); auto T = at(); int b = s.body(T[p], BodyType::STATIC); s.collider(b, s.shape(ks[k]), l ? Transform(Vector3(decimal(.5), decimal(-.25), 1), axisAngle(0, 0, 1, M_PI / 2)) : Transform()); for (int i = 0; i < 6; i++) if (m >> i & 1) s.show(i, true); s.debug(b, true); s.render(true); s.update(2); s.debug(b, false); s.update(); s.debug(b, true); s.move(b, T[(p + 1) % 4]); s.update(); }
// touching pairs: contact points and normals
static void contacts(Run& r) { auto ks = kinds(); bool lisn = r.flip(), mov = r.flip(); int k = r.choose((int)ks.size()), c = r.choose(3), n = r.choose(2), m = r.choose(4); Sys s(r, lisn, mov); int a = s.body(Transform(), BodyType::STATIC), b = s.body(Transform(Vector3(decimal(.11), decimal(c == 0 ? .5 : .6), decimal(.07)), Quaternion::identity()), BodyType::DYNAMIC); s.collider(a, s.shape(ks[k]), Transform()); s.collider(b, s.shape(c == 0 ? S0(.7) : c == 1 ? S2(.6, .4, .5) : S1(.4, .7)), Transform()); if (m != 2) s.show(3, true); if (m != 1) s.show(4, true); if (m == 3) { s.show(2, true); s.debug(b, true); } s.render(true); if (n) { s.w[0]->getDebugRenderer().setContactPointSphereRadius(decimal(.25)); s.w[0]->getDebugRenderer().setContactNormalLength(decimal(2.5)); s.radius = .25; s.nlen = 2.5; MC_CHECK(r, s.w[0]->getDebugRenderer().getContactPointSphereRadius() == decimal(.25) && s.w[0]->getDebugRenderer().getContactNormalLength() == decimal(2.5), "sizes", "getters"); } s.update(r.thorough ? 12 : 5); s.move(b, Transform(Vector3(0, 20, 0), Quaternion::identity())); s.update(2); s.move(b, Transform(Vector3(decimal(.1), decimal(.5), 0), axisAngle(0, 0, 1, .3))); s.update(2); s.destroy(a); s.update(2); }
// histories
static void histories(Run& r) { bool mov = r.flip(); Sys s(r, false, mov); int start = r.choose(3); Shape *sb = s.shape(S2(.5, .5, .5)), *ss = s.shape(S0(.5)), *sm = nullptr, *sc = s.shape(S3("octahedron", meshOcta(.6, .8, .5))); Spec ms; ms.kind = KMESH; ms.name = "mesh"; sm = s.shape(ms); int a = s.body(Transform(Vector3(0, decimal(-.4), 0), Quaternion::identity()), BodyType::STATIC); s.collider(a, start == 0 ? sm : sb, Transform()); int b = s.body(Transform(Vector3(decimal(.1), decimal(.45), decimal(.2)), axisAngle(1, 2, 0, .3)), BodyType::DYNAMIC); s.collider(b, start == 2 ? sc : sb, Transform()); s.debug(a, true); s.debug(b, start != 1); for (int i = 0; i < 6; i++) if (start == 0 ? true : start == 1 ? i >= 2 : i % 2 == 0) s.show(i, true); s.render(true); s.update();
    int depth = r.thorough ? 4 : 3; for (int d = 0; d < depth; d++) { std::vector<std::function<void()>> m; m.push_back([] {}); for (int i = 0; i < 6; i++) m.push_back([&, i] { s.show(i, !s.item[i]); }); m.push_back([&] { s.render(!s.on); }); m.push_back([&] { s.did("reset"); s.w[0]->getDebugRenderer().reset(); MC_CHECK(r, !s.w[0]->getDebugRenderer().getNbLines() && !s.w[0]->getDebugRenderer().getNbTriangles(), "reset", "not empty after reset()"); });
        for (int i = 0; i < (int)s.bs.size() && i < 2; i++) { m.push_back([&, i] { s.debug(i, !s.bs[i].debug); }); m.push_back([&, i] { s.active(i, !s.bs[i].active); }); m.push_back([&, i] { s.destroy(i); }); if (s.bs[i].cols.size()) m.push_back([&, i] { s.drop(i, 0); }); } if (s.bs.size()) { m.push_back([&, d] { s.collider((int)s.bs.size() - 1, ss, Transform(Vector3(decimal(.3 - .23 * (d + s.bs.back().cols.size())), decimal(.55), decimal(.31 * (2 * d + s.bs.back().cols.size()))), Quaternion::identity())); }); m.push_back([&, d] { s.move((int)s.bs.size() - 1, Transform(Vector3(decimal(.2 + d), decimal(.5 + .07 * d), decimal(-.3)), axisAngle(1, 0, 1, .5 + d))); }); }
        m.push_back([&, d] { int n = s.body(Transform(Vector3(decimal(.7), decimal(1.3 + d), decimal(-.5)), axisAngle(0, 1, 1, .4)), BodyType::DYNAMIC); s.collider(n, ss, Transform()); s.debug(n, true); }); m.push_back([&] { s.did("resize"); for (auto q : ss->s) ((SphereShape*)q)->setRadius(decimal(.8)); ss->spec = S0(.8); });
        m[r.choose((int)m.size())](); s.update(); } s.update(); }
int main(int argc, char** argv) { return mc::main(argc, argv, propertyId("C29"), {
    {"items", items, "17 shapes of every kind (scaled and mirrored meshes included) x all 64 sets of displayed items x 8 placements; four updates with the body's debug flag on, off, on again and the body moved", 1},
    {"contacts", contacts, "17 shapes touched by a sphere, a box or a capsule, resting or falling; contact points, contact normals or both, default and custom sizes, with and without a listener; apart, together again, destroyed", 1},
    {"histories", histories, "all sequences of 3 (thorough 4) of 20 operations, with an update after each: toggle each item, rendering, reset, debug flag, activity, destroy, add and remove colliders, move, resize, new body; from 6 starting worlds", 1},
}, "Primitives are told apart by the colors of their items\nThe shape of a sphere or capsule is a closed surface with vertices on it, wound outwards, with at least 85% of its area and volume; other shapes are drawn exactly\nThe normals of a height field: one at each corner of each cell, along the normal of one of the triangles of the cell (either side)\nThe broad-phase AABB contains the AABB of its collider and is at most about twice its size"); }
