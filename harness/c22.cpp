// QuickHull (C22): convex meshes made from point sets, judged by a certificate: vertices among the given points, closed
// oriented 2-manifold, planar outward faces, every point inside, volume/centroid/bounds of that polyhedron.
#include "rp.h"
using namespace rp3d;
typedef std::vector<std::array<double, 3>> Pts;
static PageAllocator* AL; static PhysicsCommon* PC; static uint64_t uses = 0;
static std::string pstr(const Pts& p) { std::string s; char b[90]; for (size_t i = 0; i < p.size() && i < 40; i++) { snprintf(b, 90, "(%.9g %.9g %.9g) ", p[i][0], p[i][1], p[i][2]); s += b; } if (p.size() > 40) s += "..."; return s; }
// exact rank test on integer points: 0 = all equal .. 3 = spans space
static bool coplanarI(const std::vector<std::array<long, 3>>& q) { size_t n = q.size(); if (n < 4) return true; auto sub = [&](size_t a, size_t b) { return std::array<long, 3>{q[a][0] - q[b][0], q[a][1] - q[b][1], q[a][2] - q[b][2]}; }; size_t i1 = 0; while (i1 < n && q[i1] == q[0]) i1++; if (i1 == n) return true; auto u = sub(i1, 0); auto cr = [](const std::array<long, 3>& a, const std::array<long, 3>& b) { return std::array<long, 3>{a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }; std::array<long, 3> nrm{0, 0, 0}; size_t i2 = 1; for (; i2 < n; i2++) { nrm = cr(u, sub(i2, 0)); if (nrm[0] || nrm[1] || nrm[2]) break; } if (i2 == n) return true; for (size_t i = 0; i < n; i++) { auto v = sub(i, 0); if (v[0] * nrm[0] + v[1] * nrm[1] + v[2] * nrm[2]) return false; } return true; }
struct V { double x, y, z; V operator-(const V& o) const { return {x - o.x, y - o.y, z - o.z}; } V operator+(const V& o) const { return {x + o.x, y + o.y, z + o.z}; } V operator*(double k) const { return {x * k, y * k, z * k}; } double dot(const V& o) const { return x * o.x + y * o.y + z * o.z; } V cross(const V& o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; } double len() const { return std::sqrt(dot(*this)); } };
static V vv(const Vector3& a) { return {(double)a.x, (double)a.y, (double)a.z}; }
enum Expect { MUST_FAIL, MUST_WORK, EITHER };
static void judge(Run& r, const ConvexMesh* m, const Pts& in, double tolRel) {
    const HalfEdgeStructure& h = m->getHalfEdgeStructure(); uint32 nv = m->getNbVertices(), nf = m->getNbFaces(), ne = h.getNbHalfEdges(); V mn{1e30, 1e30, 1e30}, mx{-1e30, -1e30, -1e30}; for (auto& p : in) { mn = {std::min(mn.x, p[0]), std::min(mn.y, p[1]), std::min(mn.z, p[2])}; mx = {std::max(mx.x, p[0]), std::max(mx.y, p[1]), std::max(mx.z, p[2])}; }
    double L = (mx - mn).len(), mag = std::max({std::fabs(mn.x), std::fabs(mn.y), std::fabs(mn.z), std::fabs(mx.x), std::fabs(mx.y), std::fabs(mx.z)}), tol = tolRel * L + 1.1e-5 + 1e-5 * mag;
    MC_CHECK(r, nv >= 4 && nf >= 4 && ne % 2 == 0 && nv + nf == ne / 2 + 2, "euler", "%u vertices, %u faces, %u half-edges", nv, nf, ne); MC_CHECK(r, h.getNbVertices() == nv, "nbvertices", "half-edge structure has %u vertices, mesh %u", h.getNbVertices(), nv);
    std::vector<V> q(nv); for (uint32 i = 0; i < nv; i++) { q[i] = vv(m->getVertex(i)); bool found = false; for (auto& p : in) found |= (float)p[0] == (float)q[i].x && (float)p[1] == (float)q[i].y && (float)p[2] == (float)q[i].z; MC_CHECK(r, found, "foreign-vertex", "vertex %u (%.9g,%.9g,%.9g) is not a given point", i, q[i].x, q[i].y, q[i].z); for (uint32 j = 0; j < i; j++) MC_CHECK(r, (q[i] - q[j]).len() > 0, "duplicate-vertex", "vertices %u and %u are equal", i, j); }
    for (uint32 e = 0; e < ne; e++) { auto& E = h.getHalfEdge(e); MC_CHECK(r, E.twinEdgeIndex < ne && E.nextEdgeIndex < ne && E.faceIndex < nf && E.vertexIndex < nv, "edge-range", "half-edge %u out of range", e); auto& T = h.getHalfEdge(E.twinEdgeIndex); auto& N = h.getHalfEdge(E.nextEdgeIndex); MC_CHECK(r, T.twinEdgeIndex == e && E.twinEdgeIndex != e, "twin", "twin of the twin of %u", e); MC_CHECK(r, T.vertexIndex == N.vertexIndex && T.vertexIndex != E.vertexIndex, "twin-vertex", "half-edge %u: twin starts at %u, next at %u", e, T.vertexIndex, N.vertexIndex); MC_CHECK(r, T.faceIndex != E.faceIndex, "twin-face", "half-edge %u and its twin border the same face", e); MC_CHECK(r, N.faceIndex == E.faceIndex, "next-face", "half-edge %u and its next have different faces", e); }
    for (uint32 i = 0; i < nv; i++) { MC_CHECK(r, h.getVertex(i).edgeIndex < ne && h.getHalfEdge(h.getVertex(i).edgeIndex).vertexIndex == i && h.getVertex(i).vertexPointIndex == i, "vertex-edge", "vertex %u: edge %u", i, h.getVertex(i).edgeIndex); }
    double vol = 0; V ref = q[0], c{0, 0, 0}; uint32 sum = 0; for (auto& p : q) c = c + p * (1.0 / nv);
    for (uint32 f = 0; f < nf; f++) { auto& F = h.getFace(f); uint32 n = F.faceVertices.size(); MC_CHECK(r, n >= 3, "face-size", "face %u has %u vertices", f, n); sum += n; V nm = vv(m->getFaceNormal(f)); MC_CHECK(r, std::fabs(nm.len() - 1) < 1e-4, "normal-length", "face %u: normal of length %g", f, nm.len());
        uint32 e = F.edgeIndex; for (uint32 k = 0; k < n; k++) { MC_CHECK(r, h.getHalfEdge(e).faceIndex == f, "face-loop", "face %u: edge of face %u", f, h.getHalfEdge(e).faceIndex); e = h.getHalfEdge(e).nextEdgeIndex; } MC_CHECK(r, e == F.edgeIndex, "face-loop", "face %u: edge loop does not close after %u edges", f, n);
        uint32 off = 0; while (off < n && F.faceVertices[off] != h.getHalfEdge(F.edgeIndex).vertexIndex) off++; e = F.edgeIndex; for (uint32 k = 0; k < n; k++) { MC_CHECK(r, off < n && F.faceVertices[(off + k) % n] == h.getHalfEdge(e).vertexIndex, "face-vertices", "face %u: edges do not follow the vertices", f); e = h.getHalfEdge(e).nextEdgeIndex; for (uint32 j = 0; j < k; j++) MC_CHECK(r, F.faceVertices[k] != F.faceVertices[j], "face-repeats", "face %u repeats a vertex", f); }
        V nw{0, 0, 0}; V p0 = q[F.faceVertices[0]]; double area = 0; for (uint32 k = 1; k + 1 < n; k++) nw = nw + (q[F.faceVertices[k]] - p0).cross(q[F.faceVertices[k + 1]] - p0); area = nw.len(); vol += nw.dot(p0 - ref) / 6; MC_CHECK(r, nw.dot(nm) > .99 * area || area < 1e-5 * L * L + 1e-6, "normal", "face %u: normal (%g,%g,%g) is not that of its vertices (%g,%g,%g)", f, nm.x, nm.y, nm.z, nw.x / area, nw.y / area, nw.z / area);
        V fc{0, 0, 0}; for (uint32 k = 0; k < n; k++) fc = fc + q[F.faceVertices[k]] * (1.0 / n); for (uint32 k = 0; k < n; k++) { double d = (q[F.faceVertices[k]] - fc).dot(nm); MC_CHECK(r, std::fabs(d) <= tol, "planar", "face %u: vertex off its plane by %g (tolerance %g)", f, d, tol); }
        for (auto& p : in) { double d = (V{p[0], p[1], p[2]} - fc).dot(nm); MC_CHECK(r, d <= tol, "outside", "point (%.9g,%.9g,%.9g) is %g outside face %u (tolerance %g)", p[0], p[1], p[2], d, f, tol); } }
    MC_CHECK(r, sum == ne, "edge-count", "%u half-edges, the faces have %u", ne, sum); double mv = m->getVolume(); MC_CHECK(r, std::fabs(mv - vol) <= 1e-3 * vol + 3e-6 * (L + mag) * (L + mag) * (L + mag), "volume", "volume %g, hull has %g", mv, vol);
    V mc = vv(m->getCentroid()); MC_CHECK(r, (mc - c).len() <= 1e-4 * (L + mag), "centroid", "centroid (%g,%g,%g), vertices average to (%g,%g,%g)", mc.x, mc.y, mc.z, c.x, c.y, c.z);
    V b0 = vv(m->getBounds().getMin()), b1 = vv(m->getBounds().getMax()); MC_CHECK(r, (b0 - mn).len() <= 2 * tol && (b1 - mx).len() <= 2 * tol, "bounds", "bounds (%g,%g,%g)..(%g,%g,%g) for points in (%g,%g,%g)..(%g,%g,%g)", b0.x, b0.y, b0.z, b1.x, b1.y, b1.z, mn.x, mn.y, mn.z, mx.x, mx.y, mx.z); }
static void hull(Run& r, const Pts& in, Expect ex, double tolRel = 1e-4) {
    if (!PC || uses++ % 4096 == 0) { delete PC; delete AL; AL = new PageAllocator; PC = new PhysicsCommon(AL); }
    std::vector<float> fl; Pts rounded; std::vector<double> db; bool dbl = in.size() % 2; for (auto& p : in) { for (int k = 0; k < 3; k++) { fl.push_back((float)p[k]); db.push_back(p[k]); } fl.push_back(1e9f); db.push_back(-1e9); rounded.push_back({(double)(float)p[0], (double)(float)p[1], (double)(float)p[2]}); }
    std::vector<Message> ms; VertexArray va(dbl ? (const void*)db.data() : (const void*)fl.data(), dbl ? 32 : 16, in.size(), dbl ? VertexArray::DataType::VERTEX_DOUBLE_TYPE : VertexArray::DataType::VERTEX_FLOAT_TYPE); bool asserting = true; (void)asserting;
    ConvexMesh* m = PC->createConvexMesh(va, ms); r.transition(); bool err = false; for (auto& x : ms) err |= x.type == Message::Type::Error; if (!m) { r.checked(); MC_CHECK(r, ex != MUST_WORK, "rejected", "valid points rejected: %s", ms.empty() ? "no message" : ms[0].text.c_str()); MC_CHECK(r, err, "silent", "null result without an error message"); return; }
    MC_CHECK(r, ex != MUST_FAIL, "accepted", "degenerate points gave a mesh of %u vertices", m->getNbVertices()); MC_CHECK(r, !err, "errors", "mesh returned together with the error: %s", ms[0].text.c_str()); judge(r, m, sizeof(decimal) == 8 && dbl ? rounded : rounded, tolRel);
    mc::Hash h; h.d(m->getNbVertices()); h.d(m->getNbFaces()); h.d(in.size()); for (uint32 f = 0; f < m->getNbFaces(); f++) h.d(m->getHalfEdgeStructure().getFace(f).faceVertices.size()); r.state(h.h); r.checked(m->getNbFaces() * in.size()); PC->destroyConvexMesh(m); MC_CHECK(r, AL->error.empty(), "allocator", "%s", AL->error.c_str()); }
static const double SC[] = {1, .1, 100, .02}; static const double OFF[][3] = {{0, 0, 0}, {10, -20, 30}, {-1, -1, -1}};
static void place(Run& r, const std::vector<std::array<long, 3>>& q, int sc, int off, int order, Pts& out) { size_t n = q.size(); for (size_t i = 0; i < n; i++) { size_t k = order == 0 ? i : order == 1 ? n - 1 - i : (i * 7 + 3) % n; if (order == 2 && n % 7 == 0) k = (i * 5 + 2) % n; out.push_back({q[k][0] * SC[sc] + OFF[off][0] * SC[sc], q[k][1] * SC[sc] + OFF[off][1] * SC[sc], q[k][2] * SC[sc] + OFF[off][2] * SC[sc]}); } }
// k-subsets of a grid: the first element is the choice, the rest is enumerated inside the execution
static void subsets(Run& r, int nx, int ny, int nz, int k) { std::vector<std::array<long, 3>> g; for (int x = 0; x < nx; x++) for (int y = 0; y < ny; y++) for (int z = 0; z < nz; z++) g.push_back({x, y, z}); int n = g.size(); std::vector<int> c; int prev = -1; for (int i = 0; i < k; i++) { int left = k - 1 - i; int lo = prev + 1, hi = n - left; prev = lo + r.choose(hi - lo); c.push_back(prev); } int sc = r.thorough ? r.choose(4) : 0, off = r.thorough ? r.choose(3) : 0, ord = r.thorough ? r.choose(3) : 0; if (!r.thorough) { unsigned s = 0; for (int x : c) s = s * 31 + x; sc = s % 4; off = s / 4 % 3; ord = s / 12 % 3; }
    std::vector<std::array<long, 3>> q; for (int i : c) q.push_back(g[i]); Pts p; place(r, q, sc, off, ord, p); MC_LOG(r, "points %s", pstr(p).c_str()); hull(r, p, coplanarI(q) ? MUST_FAIL : sc == 3 ? EITHER : MUST_WORK); }
static void s333a(Run& r) { subsets(r, 3, 3, 3, 4 + r.choose(r.thorough ? 3 : 2)); }
static void s233(Run& r) { subsets(r, 2, 3, 3, 6 + r.choose(r.thorough ? 6 : 3)); }
static void holes(Run& r) { std::vector<std::array<long, 3>> q; int a = r.choose(27), b = r.choose(27), c = r.choose(r.thorough ? 27 : 3) * (r.thorough ? 1 : 9); for (int i = 0; i < 27; i++) if (i != a && i != b && i != c) q.push_back({i / 9, i / 3 % 3, i % 3}); int sc = r.choose(r.thorough ? 4 : 2), off = r.choose(2), ord = r.choose(3); Pts p; place(r, q, sc, off, ord, p); MC_LOG(r, "points %s", pstr(p).c_str()); hull(r, p, sc == 3 ? EITHER : MUST_WORK); }
// all orders of special configurations
static void orders(Run& r) { static const std::vector<std::vector<std::array<long, 3>>> C = {{{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,2}}, {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,2},{1,1,0}}, {{0,0,0},{2,0,0},{0,2,0},{0,0,2},{1,1,0},{1,0,0}}, {{0,0,0},{2,0,0},{0,2,0},{0,0,2},{1,1,0},{1,0,1},{0,1,1}}, {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1},{0,0,0}}, {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{1,0,1},{0,1,1}}, {{0,0,0},{4,0,0},{4,4,0},{0,4,0},{1,1,1},{3,1,1},{3,3,1}}, {{0,0,0},{1,0,0},{0,1,0},{1,1,0},{0,0,1},{1,0,1},{0,1,1},{1,1,1}}, {{0,0,0},{1,0,0},{2,0,0},{0,0,1},{0,1,0},{0,2,0},{1,1,0},{0,1,1}}}; auto q0 = r.pick(C); if (q0.size() > 7 && !r.thorough) q0.resize(7); std::vector<std::array<long, 3>> q; while (!q0.empty()) { int i = r.choose(q0.size()); q.push_back(q0[i]); q0.erase(q0.begin() + i); } Pts p; place(r, q, 0, 0, 0, p); MC_LOG(r, "points %s", pstr(p).c_str()); hull(r, p, coplanarI(q) ? MUST_FAIL : MUST_WORK); }
// duplicates and near-duplicates
static void dupsOf(Run& r, bool near) { std::vector<std::array<long, 3>> base; int cfg = r.choose(4); if (cfg == 0) base = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; if (cfg == 1) for (int i = 0; i < 8; i++) base.push_back({i & 1, i >> 1 & 1, i >> 2}); if (cfg == 2) base = {{0,0,0},{2,0,0},{2,2,0},{0,2,0},{1,1,2},{1,1,0}}; if (cfg == 3) base = {{0,0,0},{1,0,0},{0,1,0},{1,1,0}}; static const double E[] = {0, 1e-7, 1e-6, 8e-6, 2e-3, 1e-2}, N[] = {1.2e-5, 5e-5, 2e-4}; double e = near ? N[r.choose(3)] : E[r.choose(6)]; int n = base.size(); Pts p; place(r, base, 0, r.choose(2), 0, p); int a = r.choose(n), d = r.choose(6), pos = r.choose(3); auto x = p[a]; x[d / 2] += d % 2 ? e : -e; int b = r.choose(n); auto y = p[b]; y[(d / 2 + 1) % 3] += d % 2 ? -e : e; if (pos == 0) { p.push_back(x); p.push_back(y); } else if (pos == 1) { p.insert(p.begin(), x); p.insert(p.begin(), y); } else { p.insert(p.begin() + a, x); p.push_back(y); p.push_back(y); p.push_back(x); } MC_LOG(r, "points %s", pstr(p).c_str()); hull(r, p, cfg == 3 ? (e < 5e-6 ? (e == 0 ? MUST_FAIL : EITHER) : EITHER) : near ? EITHER : MUST_WORK, near ? 1e-2 : 1e-3); }
static void dups(Run& r) { dupsOf(r, false); }
static void nearDups(Run& r) { dupsOf(r, true); }
// long, flat and small boxes and wedges
static void slender(Run& r) { static const double D[] = {1, 1e-2, 3e-3, 10, .1, 1e-3, 3e-2}; int n = r.thorough ? 7 : 6; double d[3]; for (double& x : d) x = D[r.choose(n)]; int kind = r.choose(3); Pts p; for (int i = 0; i < 8; i++) { if (kind == 1 && i >= 6) break; if (kind == 2 && i == 7) break; p.push_back({(i & 1) * d[0], (i >> 1 & 1) * d[1], (i >> 2) * d[2]}); } double mx = std::max({d[0], d[1], d[2]}), mn = std::min({d[0], d[1], d[2]}); if (mx / mn > 1001) r.prune(); MC_LOG(r, "points %s", pstr(p).c_str()); hull(r, p, d[0] * d[1] * d[2] > 1e-6 ? MUST_WORK : EITHER, 1e-3); }
// corners of a box moved a little, one coordinate each
static void perturbed(Run& r) { static const double E[] = {1e-3, 1e-4, 2e-5, 1e-5, 3e-6, 1e-6, 1e-7}; double e = r.pick(std::vector<double>(E, E + 7)); int axis = r.choose(r.thorough ? 3 : 1); int sc = r.choose(r.thorough ? 3 : 2); double S = sc == 0 ? 1 : sc == 1 ? 50 : .2; Pts p; for (int i = 0; i < 8; i++) { std::array<double, 3> v{(double)(i & 1), (double)(i >> 1 & 1), (double)(i >> 2)}; v[axis] += (r.choose(3) - 1) * e; for (auto& x : v) x *= S; p.push_back(v); } if (r.thorough && r.flip()) std::reverse(p.begin(), p.end()); MC_LOG(r, "points %s", pstr(p).c_str()); hull(r, p, MUST_WORK, 1e-3); }
// families of many points
static void families(Run& r) { int fam = r.choose(12), n = 3 + r.choose(r.thorough ? 62 : 30); int sc = r.choose(r.thorough ? 5 : 3); int rot = r.choose(3); static const double S[] = {1, 30, .2, 1000, .05}; Pts p; auto ring = [&](double y, double R, double ph) { for (int i = 0; i < n; i++) { double a = 2 * M_PI * (i + ph) / n; p.push_back({R * std::cos(a), y, R * std::sin(a)}); } };
    switch (fam) { case 0: ring(-1, 1, 0); ring(1, 1, 0); break; case 1: ring(-1, 1, 0); ring(1, 1, .5); break; case 2: ring(0, 1, 0); p.push_back({0, 1, 0}); break; case 3: ring(0, 1, 0); p.push_back({0, 1, 0}); p.push_back({0, -1, 0}); break; case 4: ring(-1, .5, 0); ring(0, 1, 0); ring(1, .5, 0); break; case 5: for (int i = 0; i < n + 2; i++) { double z = 1 - 2 * (i + .5) / (n + 2), a = i * 2.399963, R = std::sqrt(1 - z * z); p.push_back({R * std::cos(a), z, R * std::sin(a)}); } break; case 6: ring(-1, 1, 0); ring(-.5, 1, 0); ring(.5, 1, .0); ring(1, 1, 0); p.push_back({0, 0, 0}); break; case 7: { int k = 2 + n % 5; for (int i = 0; i <= k; i++) for (int j = 0; j <= k; j++) { double a = (double)i / k, b = (double)j / k; p.push_back({a, b, 0}); p.push_back({a, b, 1}); p.push_back({0, a, b}); p.push_back({1, a, b}); p.push_back({a, 0, b}); p.push_back({a, 1, b}); } } break; case 8: for (int lat = 1; lat < 6; lat++) { double t = M_PI * lat / 6; for (int i = 0; i < n; i++) { double a = 2 * M_PI * i / n; p.push_back({std::sin(t) * std::cos(a), std::cos(t), std::sin(t) * std::sin(a)}); } } p.push_back({0, 1, 0}); p.push_back({0, -1, 0}); break; case 9: ring(-.1, 1, 0); ring(.1, 1, .25); ring(0, .5, 0); break; case 10: for (int i = 0; i < n + 2; i++) { double t = .1 * (i + 1); p.push_back({t, t * t, t * t * t}); } break; case 11: for (int i = 0; i < 4 * n; i++) { unsigned x = i * 2654435761u; p.push_back({(x & 15) / 8. - 1, (x >> 8 & 15) / 8. - 1, (x >> 16 & 15) / 8. - 1}); } break; }
    double ca = std::cos(.7), sa = std::sin(.7), cb = std::cos(1.1), sb = std::sin(1.1); for (auto& v : p) { if (rot == 1) v = {ca * v[0] - sa * v[1], sa * v[0] + ca * v[1], v[2]}; if (rot == 2) { v = {ca * v[0] - sa * v[1], sa * v[0] + ca * v[1], v[2]}; v = {v[0], cb * v[1] - sb * v[2], sb * v[1] + cb * v[2]}; } for (auto& x : v) x *= S[sc]; } if (r.thorough && r.flip()) std::reverse(p.begin(), p.end()); MC_LOG(r, "family %d, %d, scale %g, rotation %d: %s", fam, n, S[sc], rot, pstr(p).c_str()); hull(r, p, sc == 4 || (sc == 2 && n > 20) ? EITHER : MUST_WORK, 1e-3); }
static void degenerate(Run& r) { int k = r.choose(9); Pts p; Expect e = MUST_FAIL; switch (k) { case 0: break; case 1: p = {{0,0,0}}; break; case 2: p = {{0,0,0},{1,0,0},{0,1,0}}; break; case 3: for (int i = 0; i < 9; i++) p.push_back({1, 2, 3}); break; case 4: for (int i = 0; i < 9; i++) p.push_back({(double)i, 0, 0}); break; case 5: for (int i = 0; i < 9; i++) p.push_back({(double)i, 2.0 * i, -3.0 * i}); break; case 6: for (int i = 0; i < 9; i++) p.push_back({(double)(i % 3), (double)(i / 3), 5}); break; case 7: for (int i = 0; i < 9; i++) p.push_back({(double)(i % 3), (double)(i / 3), (double)(i % 3)}); break; case 8: p = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; for (auto& v : p) for (auto& x : v) x *= 1e-6; break; } MC_LOG(r, "points %s", pstr(p).c_str()); if (p.empty()) p.reserve(1); hull(r, p, e); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"grid-3x3x3", s333a, "all subsets of 4 and 5 (thorough: 6) points of the 3x3x3 grid; scale, offset and order varied (thorough: 4 x 3 x 3 of them all)", 1, 30});
    s.push_back({"grid-2x3x3", s233, "all subsets of 6..8 (thorough 6..11) points of the 2x3x3 grid; scale, offset and order varied", 1, 30});
    s.push_back({"grid-holes", holes, "the 3x3x3 grid without up to 3 points x scale x offset x order", 1, 30});
    s.push_back({"orders", orders, "all orders of 9 special configurations of 5..7 (thorough 8) points", 1, 30});
    s.push_back({"duplicates", dups, "4 configurations with two points doubled at distance 0..1e-2 (without the next scenario's) in 6 directions, 3 positions in the list", 1, 30});
    s.push_back({"near-duplicates", nearDups, "the same with the doubled points 1.2e-5, 5e-5 and 2e-4 away, just outside the distance at which points are merged: may be rejected, faces planar up to 1e-2", 1, 30});
    s.push_back({"slender", slender, "boxes, wedges and cut boxes with all combinations of 6 (thorough 7) lengths 1e-3..10 as sides, side ratio up to 1000", 1, 30});
    s.push_back({"perturbed", perturbed, "box with every corner moved by -e, 0 or e along an axis, 7 values of e, 2 (thorough 3 x 3) scales and axes", 1, 30});
    s.push_back({"families", families, "12 families (prisms, antiprisms, pyramids, spheres, cubes with face grids, curves) of 3..32 (thorough 64) points per ring x scale x rotation", 1, 30});
    s.push_back({"degenerate", degenerate, "coincident, collinear, coplanar and too few points", 1, 30});
    return mc::main(c, v, propertyId("C22"), s, "tolerance 1e-4 (1e-3 for nearly degenerate input) of the size plus 1e-5 of the magnitude; points closer than 1e-5 count as one"); }
