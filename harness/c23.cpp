// Mesh creation (C23): every data format of small meshes must be copied exactly (and independently of the user's arrays);
// every single defect of a small mesh must be rejected with an error and leave the factory usable and balanced.
#include "rp.h"
using namespace rp3d;
struct P3 { double x, y, z; };
static std::string msgs(const std::vector<Message>& m) { std::string s; for (auto& x : m) { s += x.type == Message::Type::Error ? "E:" : "W:"; s += x.text + "; "; } return s; }
static int nErr(const std::vector<Message>& m) { int n = 0; for (auto& x : m) n += x.type == Message::Type::Error; return n; }
static int nWarn(const std::vector<Message>& m) { int n = 0; for (auto& x : m) n += x.type == Message::Type::Warning; return n; }
// one factory per execution, with bookkeeping of the objects it handed out
struct World { PageAllocator al; PhysicsCommon* pc; std::map<char*, std::pair<size_t, const char*>> objs; Run& r;
    World(Run& r_) : r(r_) { al.fill = 0xCD; pc = new PhysicsCommon(&al); }
    template <class T> T* own(T* p, const char* n) { if (!p) return p; char* a = (char*)p; r.checked(); MC_CHECK(r, ((uintptr_t)a & 15) == 0, "alignment", "%s at %p", n, (void*)a);
        for (auto& o : objs) MC_CHECK(r, a + sizeof(T) <= o.first || o.first + o.second.first <= a, "overlap", "new %s at %p (%zu bytes) overlaps the live %s at %p (%zu bytes)", n, (void*)a, sizeof(T), o.second.second, (void*)o.first, o.second.first);
        objs[a] = {sizeof(T), n}; return p; }
    void gone(void* p) { objs.erase((char*)p); }
    void finish() { delete pc; pc = nullptr; r.checked(); MC_CHECK(r, al.error.empty(), "allocator", "%s", al.error.c_str()); MC_CHECK(r, al.live.empty(), "leak", "%zu blocks of the user's allocator not returned", al.live.size()); }
    ~World() { if (pc) delete pc; } };
// ---- meshes ----
struct Mesh { std::vector<P3> v; std::vector<std::vector<uint32_t>> f; const char* name; };
static Mesh boxMesh(double a, double b, double c) { Mesh m; for (int i = 0; i < 8; i++) m.v.push_back({i & 1 ? a : -a, i & 2 ? b : -b, i & 4 ? c : -c}); m.f = {{0,4,6,2},{1,3,7,5},{0,1,5,4},{2,6,7,3},{0,2,3,1},{4,5,7,6}}; m.name = "box"; return m; }
static Mesh polyMesh(int k) { Mesh m; switch (k) {
    case 0: m.v = {{0,0,0},{1,0,0},{0,1,0},{0,0,1}}; m.f = {{0,2,1},{0,1,3},{1,2,3},{2,0,3}}; m.name = "tetrahedron"; break;
    case 1: m = boxMesh(1, 2, .5); break;
    case 2: m.v = {{-1,0,-1},{1,0,-1},{1,0,1},{-1,0,1},{.25,1.5,0}}; m.f = {{0,1,2,3},{0,4,1},{1,4,2},{2,4,3},{3,4,0}}; m.name = "pyramid"; break;
    case 3: m.v = {{0,0,0},{2,0,0},{0,0,1},{0,3,0},{2,3,0},{0,3,1}}; m.f = {{0,1,2},{3,5,4},{0,3,4,1},{1,4,5,2},{2,5,3,0}}; m.name = "prism"; break;
    case 4: { m.name = "hexagonal prism"; std::vector<uint32_t> top, bot; for (int i = 0; i < 6; i++) { double a = M_PI / 3 * i; m.v.push_back({std::cos(a), -1, std::sin(a)}); m.v.push_back({std::cos(a), 1, std::sin(a)}); bot.push_back(2 * i); top.push_back(2 * (5 - i) + 1); uint32_t j = (i + 1) % 6; m.f.push_back({2u * i, 2u * i + 1, 2 * j + 1, 2 * j}); } m.f.push_back(bot); m.f.push_back(top); break; }
    case 5: m.v = {{1,0,0},{-1,0,0},{0,1,0},{0,-1,0},{0,0,1},{0,0,-1}}; m.f = {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}}; m.name = "octahedron"; break; } return m; }
static const int NPOLY = 6;
// raw user data in a given format, between guard bytes that are changed after the creation
struct Raw { std::vector<unsigned char> d; size_t stride = 0; const void* at() const { return d.data() + 8; } void scramble() { for (auto& c : d) c ^= 0xA5; } };
static Raw rawV(const std::vector<P3>& v, bool dbl, int pad) { Raw w; size_t el = dbl ? 8 : 4; w.stride = 3 * el + pad * el; w.d.assign(v.size() * w.stride + 16, 0x77); for (size_t i = 0; i < v.size(); i++) { unsigned char* p = w.d.data() + 8 + i * w.stride; double q[3] = {v[i].x, v[i].y, v[i].z}; for (int k = 0; k < 3; k++) if (dbl) memcpy(p + k * 8, &q[k], 8); else { float f = (float)q[k]; memcpy(p + k * 4, &f, 4); } } return w; }
static void putI(unsigned char* p, uint32_t x, bool sh) { if (sh) { unsigned short s = (unsigned short)x; memcpy(p, &s, 2); } else memcpy(p, &x, 4); }
static bool same(const Vector3& a, const P3& b) { return a.x == (float)b.x && a.y == (float)b.y && a.z == (float)b.z; }
// ---- convex meshes ----
enum Verdict { BAD, GOOD, ANY };
// oracle: a closed oriented surface of genus 0 with faces of non-zero area
static Verdict polyVerdict(const Mesh& m, uint32_t nbVerts) {
    if (nbVerts == 0 || m.f.empty()) return BAD; size_t nh = 0; std::set<std::pair<uint32_t, uint32_t>> e; for (auto& f : m.f) { if (f.size() < 3) return BAD; for (size_t k = 0; k < f.size(); k++) { uint32_t a = f[k], b = f[(k + 1) % f.size()]; if (a >= nbVerts) return BAD; nh++; if (a == b || !e.insert({a, b}).second) return BAD; } }
    for (auto& x : e) if (!e.count({x.second, x.first})) return BAD; if ((long)nbVerts - (long)nh / 2 + (long)m.f.size() != 2) return BAD;
    for (auto& f : m.f) { double n[3] = {0, 0, 0}; for (size_t k = 0; k < f.size(); k++) { P3 a = m.v[f[k]], b = m.v[f[(k + 1) % f.size()]]; n[0] += (a.y - b.y) * (a.z + b.z); n[1] += (a.z - b.z) * (a.x + b.x); n[2] += (a.x - b.x) * (a.y + b.y); } double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); if (l < 1e-9) return BAD; if (l < 1e-5) return ANY; }
    return nbVerts < 4 ? ANY : GOOD; }
struct Fmt { bool dbl = false, sh = false; int vpad = 0, ipad = 0, layout = 0; };
static void convexCase(Run& r, World& w, const Mesh& m, uint32_t nbVerts, const Fmt& f, Verdict verdict) {
    Raw rv = rawV(m.v, f.dbl, f.vpad); size_t isz = f.sh ? 2 : 4, istr = isz * (1 + f.ipad); std::vector<PolygonVertexArray::PolygonFace> pf(m.f.size() + 1); size_t nf = m.f.size(), tot = 0; for (auto& x : m.f) tot += x.size();
    Raw ri; ri.d.assign(16 + (tot + 3 * nf + 1) * istr, 0x66); size_t base = f.layout == 2 ? 1 : 0; for (size_t q = 0; q < nf; q++) { size_t k = f.layout == 1 ? nf - 1 - q : q; pf[k].nbVertices = m.f[k].size(); pf[k].indexBase = base; for (auto x : m.f[k]) putI(ri.d.data() + 8 + base++ * istr, x, f.sh); if (f.layout == 2) base += 2; }
    std::vector<Message> ms; ConvexMesh* c; { PolygonVertexArray arr(nbVerts, rv.at(), rv.stride, ri.at(), istr, nf, pf.data(), f.dbl ? PolygonVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : PolygonVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, f.sh ? PolygonVertexArray::IndexDataType::INDEX_SHORT_TYPE : PolygonVertexArray::IndexDataType::INDEX_INTEGER_TYPE); c = w.own(w.pc->createConvexMesh(arr, ms), "ConvexMesh"); }
    rv.scramble(); ri.scramble(); for (auto& x : pf) { x.nbVertices = 1000; x.indexBase = 77777; } r.transition(); r.checked();
    MC_LOG(r, "convex mesh from the %s: %u vertices, %zu faces, %s, %s indices: %s %s", m.name, nbVerts, nf, f.dbl ? "double" : "float", f.sh ? "short" : "int", c ? "created" : "null", msgs(ms).c_str());
    MC_CHECK(r, (c == nullptr) == (nErr(ms) > 0), "error-result", "%s but %d errors: %s", c ? "mesh returned" : "null returned", nErr(ms), msgs(ms).c_str());
    if (verdict == GOOD) MC_CHECK(r, c, "rejected", "valid polyhedron rejected: %s", msgs(ms).c_str()); if (verdict == BAD) MC_CHECK(r, !c, "accepted", "invalid polyhedron accepted"); if (!c || verdict != GOOD) return;
    MC_CHECK(r, c->getNbVertices() == nbVerts && c->getNbFaces() == nf, "counts", "%u vertices, %u faces", c->getNbVertices(), c->getNbFaces()); P3 ctr{0, 0, 0}; for (uint32_t i = 0; i < nbVerts; i++) { MC_CHECK(r, same(c->getVertex(i), m.v[i]), "vertex", "vertex %u is %s, not (%g,%g,%g)", i, str(c->getVertex(i)).c_str(), m.v[i].x, m.v[i].y, m.v[i].z); ctr.x += m.v[i].x / nbVerts; ctr.y += m.v[i].y / nbVerts; ctr.z += m.v[i].z / nbVerts; }
    auto& h = c->getHalfEdgeStructure(); double vol = 0; for (size_t k = 0; k < nf; k++) { auto& face = h.getFace(k); MC_CHECK(r, face.faceVertices.size() == m.f[k].size(), "face", "face %zu has %zu vertices", k, (size_t)face.faceVertices.size()); double n[3] = {0, 0, 0}; P3 o = m.v[m.f[k][0]]; for (size_t j = 0; j < m.f[k].size(); j++) { MC_CHECK(r, face.faceVertices[j] == m.f[k][j], "face", "vertex %zu of face %zu is %u, not %u", j, k, face.faceVertices[j], m.f[k][j]); P3 a = m.v[m.f[k][j]], b = m.v[m.f[k][(j + 1) % m.f[k].size()]]; double ax = a.x - o.x, ay = a.y - o.y, az = a.z - o.z, bx = b.x - o.x, by = b.y - o.y, bz = b.z - o.z; n[0] += ay * bz - az * by; n[1] += az * bx - ax * bz; n[2] += ax * by - ay * bx; }
        double l = std::sqrt(n[0] * n[0] + n[1] * n[1] + n[2] * n[2]); vol += (o.x * n[0] + o.y * n[1] + o.z * n[2]) / 6; Vector3 fn = c->getFaceNormal(k); MC_CHECK(r, dist(fn, Vector3(n[0] / l, n[1] / l, n[2] / l)) < 1e-4, "normal", "face %zu: normal %s, expected (%g,%g,%g)", k, str(fn).c_str(), n[0] / l, n[1] / l, n[2] / l); 
        uint32 e = face.edgeIndex; for (size_t j = 0; j < m.f[k].size(); j++) { auto& E = h.getHalfEdge(e); MC_CHECK(r, E.faceIndex == k && h.getHalfEdge(E.twinEdgeIndex).twinEdgeIndex == e && h.getHalfEdge(E.twinEdgeIndex).vertexIndex == h.getHalfEdge(E.nextEdgeIndex).vertexIndex, "half-edge", "half-edge %u of face %zu", e, k); e = E.nextEdgeIndex; } MC_CHECK(r, e == face.edgeIndex, "half-edge", "loop of face %zu does not close", k); }
    MC_CHECK(r, std::fabs(c->getVolume() - vol) < 1e-4 * (1 + vol), "volume", "volume %g, expected %g", (double)c->getVolume(), vol); MC_CHECK(r, dist(c->getCentroid(), Vector3(ctr.x, ctr.y, ctr.z)) < 1e-4, "centroid", "%s", str(c->getCentroid()).c_str()); }
static const int IPADS[] = {0, 1};
static Fmt anyFmt(Run& r) { Fmt f; f.dbl = r.flip(); f.sh = r.flip(); f.vpad = r.choose(3); f.ipad = IPADS[r.choose(2)]; f.layout = r.choose(3); return f; }
static void polyFormats(Run& r) { World w(r); Mesh m = polyMesh(r.choose(NPOLY)); double s = r.pick(std::vector<double>{1, 10, .1}); for (auto& p : m.v) { p.x *= s; p.y *= s; p.z *= s; if (s == 10) { p.x += 100; p.z -= 3; } } convexCase(r, w, m, m.v.size(), anyFmt(r), s == .1 ? GOOD : GOOD); w.finish(); }
// every single-index replacement, removed / repeated / flipped / truncated face, added / merged vertex
static void polyDefects(Run& r) { World w(r); int k = r.choose(r.thorough ? NPOLY : 4); Mesh m = polyMesh(k), g = m; uint32_t n = m.v.size(); int nf = m.f.size(); Fmt f; f.sh = r.flip(); int kind = r.choose(11); switch (kind) {
    case 0: { auto& face = m.f[r.choose(nf)]; int j = r.choose(face.size()); uint32_t to = r.choose(n + 4); static const uint32_t big[] = {60000, 65535}; face[j] = to < n + 2 ? to : big[to - n - 2]; if (!f.sh && to == n + 3) face[j] = 0xFFFFFFFFu; break; }
    case 1: m.f.erase(m.f.begin() + r.choose(nf)); break; case 2: m.f.push_back(m.f[r.choose(nf)]); break; case 3: { auto& face = m.f[r.choose(nf)]; std::reverse(face.begin(), face.end()); break; }
    case 4: m.f[r.choose(nf)].resize(r.choose(3)); break; case 5: m.v.push_back({5, 5, 5}); n++; break; case 6: n = r.choose(n); break;
    case 7: { int a = r.choose(n), b = r.choose(n); if (a == b) r.prune(); for (auto& face : m.f) for (auto& i : face) if (i == (uint32_t)a) i = b; break; } // identifying two vertices
    case 8: { int a = r.choose(n), b = r.choose(n); if (a == b) r.prune(); m.v[a] = m.v[b]; break; } // two vertices at one place
    case 9: { int c = r.choose(5); if (c == 0) m.f.clear(); if (c == 1) n = 0; if (c == 2) { n = 0; m.f.clear(); } if (c == 3) m.f.resize(1); if (c == 4) m.f.resize(2); break; }
    case 10: { auto& face = m.f[r.choose(nf)]; int j = r.choose(face.size()); face.erase(face.begin() + j); break; } }
    convexCase(r, w, m, n, f, polyVerdict(m, n)); // afterwards valid meshes still work
    convexCase(r, w, g, g.v.size(), f, GOOD); w.finish(); }
// two defects at once (each chosen among index replacements)
static void polyPairs(Run& r) { World w(r); int pk = r.choose(r.thorough ? 3 : 2); Mesh m = polyMesh(pk == 1 ? 2 : pk == 2 ? 1 : 0); uint32_t n = m.v.size(); for (int t = 0; t < 2; t++) { auto& face = m.f[r.choose(m.f.size())]; face[r.choose(face.size())] = r.choose(n + 1); } convexCase(r, w, m, n, Fmt(), polyVerdict(m, n)); w.finish(); }
// ---- point clouds in every format (the hull itself is C22's) ----
static void cloudFormats(Run& r) { World w(r); Mesh m = polyMesh(r.choose(NPOLY)); bool dbl = r.flip(); Raw rv = rawV(m.v, dbl, r.choose(4)); std::vector<Message> ms; ConvexMesh* c; { VertexArray va(rv.at(), rv.stride, m.v.size(), dbl ? VertexArray::DataType::VERTEX_DOUBLE_TYPE : VertexArray::DataType::VERTEX_FLOAT_TYPE); for (size_t i = 0; i < m.v.size(); i++) MC_CHECK(r, same(va.getVertex(i), m.v[i]), "vertexarray", "VertexArray::getVertex(%zu) is %s", i, str(va.getVertex(i)).c_str()); c = w.own(w.pc->createConvexMesh(va, ms), "ConvexMesh"); } rv.scramble(); r.transition(); r.checked(); MC_LOG(r, "hull of the %s: %s %s", m.name, c ? "created" : "null", msgs(ms).c_str()); MC_CHECK(r, c && !nErr(ms), "rejected", "valid points rejected: %s", msgs(ms).c_str()); MC_CHECK(r, c->getNbVertices() == m.v.size(), "counts", "%u vertices", c->getNbVertices()); for (auto& p : m.v) { bool in = false; for (uint32 i = 0; i < c->getNbVertices(); i++) in |= same(c->getVertex(i), p); MC_CHECK(r, in, "vertex", "point (%g,%g,%g) is not a vertex", p.x, p.y, p.z); } w.finish(); }
// ---- triangle meshes ----
struct Tri { uint32_t i[3]; };
struct TMesh { std::vector<P3> v; std::vector<Tri> t; const char* name; };
static TMesh triMesh(int k) { TMesh m; switch (k) {
    case 0: m.v = {{0,0,0},{2,0,0},{0,0,2}}; m.t = {{{0,1,2}}}; m.name = "one triangle"; break;
    case 1: m.v = {{0,0,0},{1,0,0},{1,0,1},{0,0,1}}; m.t = {{{0,2,1}},{{0,3,2}}}; m.name = "quad"; break;
    case 2: m.v = {{9,9,9},{0,0,0},{1,0,0},{8,8,8},{0,1,0},{0,0,1},{7,7,7}}; m.t = {{{1,4,2}},{{1,2,5}},{{2,4,5}},{{4,1,5}}}; m.name = "tetrahedron with unused vertices"; break;
    case 3: m.v = {{0,0,0},{1,0,0},{2,0,0},{0,0,1},{1,1,1},{2,0,1}}; m.t = {{{0,3,1}},{{1,3,4}},{{1,4,2}},{{2,4,5}}}; m.name = "strip"; break;
    case 4: m.v = {{-3,0,0},{3,0,0},{0,.5,0},{0,-.5,0},{0,0,1}}; m.t = {{{0,1,2}},{{1,0,3}},{{0,4,1}}}; m.name = "obtuse fan"; break;
    case 5: m.v = {{0,0,0},{1,0,0},{0,1,0},{5,5,5},{5,5,5},{1,0,1}}; m.t = {{{3,4,5}},{{0,1,2}},{{1,1,2}},{{0,5,1}}}; m.name = "mesh with degenerate triangles"; break;
    case 6: for (int i = 0; i < 8; i++) m.v.push_back({(double)(i & 1), (double)(i >> 1 & 1), (double)(i >> 2)}); m.t = {{{0,4,6}},{{0,6,2}},{{1,3,7}},{{1,7,5}},{{0,1,5}},{{0,5,4}},{{2,6,7}},{{2,7,3}},{{0,2,3}},{{0,3,1}},{{4,5,7}},{{4,7,6}}}; m.name = "cube"; break; } return m; }
static const int NTRI = 7;
struct TFmt : Fmt { int nrm = 0, npad = 0; };
static void triCase(Run& r, World& w, const TMesh& m, uint32_t nbVerts, const TFmt& f, const std::vector<P3>* normals = nullptr) {
    Raw rv = rawV(m.v, f.dbl, f.vpad), ri, rn; size_t isz = f.sh ? 2 : 4; ri.stride = isz * (3 + f.ipad); ri.d.assign(16 + m.t.size() * ri.stride, 0x66); for (size_t k = 0; k < m.t.size(); k++) for (int j = 0; j < 3; j++) putI(ri.d.data() + 8 + k * ri.stride + j * isz, m.t[k].i[j], f.sh);
    std::vector<P3> ns; if (f.nrm) { if (normals) ns = *normals; else for (size_t i = 0; i < m.v.size(); i++) ns.push_back({.25 * i + .5, 1, -.125 * i}); rn = rawV(ns, f.nrm == 2, f.npad); }
    auto VT = f.dbl ? TriangleVertexArray::VertexDataType::VERTEX_DOUBLE_TYPE : TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE; auto IT = f.sh ? TriangleVertexArray::IndexDataType::INDEX_SHORT_TYPE : TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE; std::vector<Message> ms; TriangleMesh* t;
    if (f.nrm) { TriangleVertexArray a(nbVerts, rv.at(), rv.stride, rn.at(), rn.stride, m.t.size(), ri.at(), ri.stride, VT, f.nrm == 2 ? TriangleVertexArray::NormalDataType::NORMAL_DOUBLE_TYPE : TriangleVertexArray::NormalDataType::NORMAL_FLOAT_TYPE, IT); t = w.own(w.pc->createTriangleMesh(a, ms), "TriangleMesh"); } else { TriangleVertexArray a(nbVerts, rv.at(), rv.stride, m.t.size(), ri.at(), ri.stride, VT, IT); t = w.own(w.pc->createTriangleMesh(a, ms), "TriangleMesh"); }
    rv.scramble(); ri.scramble(); rn.scramble(); r.transition(); r.checked();
    // oracle
    bool bad = false; std::vector<Tri> keep; for (auto& x : m.t) { bool in = true; for (uint32_t i : x.i) if (i >= nbVerts) in = false; if (!in) { bad = true; continue; } P3 a = m.v[x.i[0]], b = m.v[x.i[1]], c = m.v[x.i[2]]; double ux = b.x - a.x, uy = b.y - a.y, uz = b.z - a.z, vx = c.x - a.x, vy = c.y - a.y, vz = c.z - a.z; double n2 = std::pow(uy * vz - uz * vy, 2) + std::pow(uz * vx - ux * vz, 2) + std::pow(ux * vy - uy * vx, 2); if (n2 > 1e-9) keep.push_back(x); }
    bool shortNormal = false; if (f.nrm) for (auto& x : keep) for (uint32_t i : x.i) { P3 q = ns[i]; if (q.x * q.x + q.y * q.y + q.z * q.z < 1e-14) shortNormal = true; } if (keep.empty() || shortNormal) bad = true;
    MC_LOG(r, "triangle mesh from the %s: %u vertices, %zu triangles: %s %s", m.name, nbVerts, m.t.size(), t ? "created" : "null", msgs(ms).c_str());
    MC_CHECK(r, (t == nullptr) == (nErr(ms) > 0), "error-result", "%s but %d errors: %s", t ? "mesh returned" : "null returned", nErr(ms), msgs(ms).c_str()); MC_CHECK(r, (t == nullptr) == bad, bad ? "accepted" : "rejected", "%s: %s", bad ? "invalid mesh accepted" : "valid mesh rejected", msgs(ms).c_str()); if (!t) return;
    MC_CHECK(r, (nWarn(ms) > 0) == (keep.size() < m.t.size()), "warning", "%zu of %zu triangles kept, %d warnings", keep.size(), m.t.size(), nWarn(ms)); MC_CHECK(r, t->getNbTriangles() == keep.size(), "counts", "%u triangles instead of %zu", t->getNbTriangles(), keep.size()); std::map<uint32_t, uint32> toNew; std::map<uint32_t, P3> sum;
    for (size_t k = 0; k < keep.size(); k++) { uint32 a[3]; t->getTriangleVerticesIndices(k, a[0], a[1], a[2]); Vector3 q[3], nn[3]; t->getTriangleVertices(k, q[0], q[1], q[2]); t->getTriangleVerticesNormals(k, nn[0], nn[1], nn[2]); for (int j = 0; j < 3; j++) { uint32_t u = keep[k].i[j]; MC_CHECK(r, a[j] < t->getNbVertices(), "index", "triangle %zu: index %u", k, a[j]); MC_CHECK(r, same(q[j], m.v[u]) && same(t->getVertex(a[j]), m.v[u]), "vertex", "triangle %zu vertex %d is %s, not (%g,%g,%g)", k, j, str(q[j]).c_str(), m.v[u].x, m.v[u].y, m.v[u].z); auto it = toNew.find(u); MC_CHECK(r, it == toNew.end() || it->second == a[j], "index", "user vertex %u became %u and %u", u, it == toNew.end() ? 0 : it->second, a[j]); toNew[u] = a[j]; MC_CHECK(r, nn[j] == t->getVertexNormal(a[j]), "normal", "triangle %zu normal %d", k, j);
            if (f.nrm) MC_CHECK(r, same(nn[j], ns[u]), "normal", "normal of user vertex %u is %s, not (%g,%g,%g)", u, str(nn[j]).c_str(), ns[u].x, ns[u].y, ns[u].z);
            P3 A = m.v[u], B = m.v[keep[k].i[(j + 1) % 3]], C = m.v[keep[k].i[(j + 2) % 3]]; double e[3] = {B.x - A.x, B.y - A.y, B.z - A.z}, g[3] = {C.x - A.x, C.y - A.y, C.z - A.z}; double c[3] = {e[1] * g[2] - e[2] * g[1], e[2] * g[0] - e[0] * g[2], e[0] * g[1] - e[1] * g[0]}; double cl = std::sqrt(c[0] * c[0] + c[1] * c[1] + c[2] * c[2]), d = e[0] * g[0] + e[1] * g[1] + e[2] * g[2], ang = std::atan2(cl, d); auto& S = sum[u]; S.x += ang * c[0] / cl; S.y += ang * c[1] / cl; S.z += ang * c[2] / cl; } }
    MC_CHECK(r, t->getNbVertices() == toNew.size(), "counts", "%u vertices for %zu used ones", t->getNbVertices(), toNew.size()); std::set<uint32> used; for (auto& e : toNew) used.insert(e.second); MC_CHECK(r, used.size() == toNew.size(), "index", "two user vertices were merged");
    if (!f.nrm) for (auto& e : sum) { P3 s = e.second; double l = std::sqrt(s.x * s.x + s.y * s.y + s.z * s.z); if (l < 1e-3) continue; Vector3 g = t->getVertexNormal(toNew[e.first]); MC_CHECK(r, dist(g, Vector3(s.x / l, s.y / l, s.z / l)) < 2e-3, "computed-normal", "normal of vertex %u is %s, the angle-weighted average is (%g,%g,%g)", e.first, str(g).c_str(), s.x / l, s.y / l, s.z / l); }
    Vector3 mn(1e30, 1e30, 1e30), mx(-1e30, -1e30, -1e30); for (auto& e : toNew) { Vector3 p(m.v[e.first].x, m.v[e.first].y, m.v[e.first].z); mn = Vector3::min(mn, p); mx = Vector3::max(mx, p); } auto b = t->getBounds(); MC_CHECK(r, b.getMin().x <= mn.x && b.getMin().y <= mn.y && b.getMin().z <= mn.z && b.getMax().x >= mx.x && b.getMax().y >= mx.y && b.getMax().z >= mx.z, "bounds", "bounds %s..%s, vertices %s..%s", str(b.getMin()).c_str(), str(b.getMax()).c_str(), str(mn).c_str(), str(mx).c_str()); }
static TFmt anyT(Run& r) { TFmt f; f.dbl = r.flip(); f.sh = r.flip(); f.vpad = r.choose(3); f.ipad = r.choose(2); f.nrm = r.choose(3); if (f.nrm) f.npad = r.choose(2); return f; }
static void triFormats(Run& r) { World w(r); TMesh m = triMesh(r.choose(NTRI)); double s = r.pick(std::vector<double>{1, 8, .5}); for (auto& p : m.v) { p.x *= s; p.y *= s; p.z *= s; } triCase(r, w, m, m.v.size(), anyT(r)); w.finish(); }
static void triDefects(Run& r) { World w(r); TMesh m = triMesh(r.choose(NTRI)), g = m; uint32_t n = m.v.size(); TFmt f; f.sh = r.flip(); f.nrm = r.choose(2); std::vector<P3> ns; switch (r.choose(7)) {
    case 0: { auto& t = m.t[r.choose(m.t.size())]; int j = r.choose(3); uint32_t to = r.choose(n + 3); static const uint32_t big[] = {65535}; t.i[j] = to < n + 2 ? to : f.sh ? big[0] : 0xFFFFFFFFu; break; }
    case 1: n = r.choose(n); break; case 2: m.t.clear(); break; case 3: { P3 p = m.v[r.choose(n)]; for (auto& q : m.v) q = p; break; } case 4: for (auto& q : m.v) q = {0, 0, 0}; break;
    case 5: { if (!f.nrm) r.prune(); for (uint32_t i = 0; i < n; i++) ns.push_back({0, 1, 0}); ns[r.choose(n)] = {0, 0, 0}; break; }
    case 6: { int a = r.choose(n), b = r.choose(n); if (a == b) r.prune(); m.v[a] = m.v[b]; break; } }
    triCase(r, w, m, n, f, ns.empty() ? nullptr : &ns); triCase(r, w, g, g.v.size(), TFmt()); w.finish(); }
// every mesh of 1..3 triangles over 4 (5) vertices, including degenerate and unused ones
static void triSmall(Run& r) { World w(r); static const P3 P[] = {{0,0,0},{1,0,0},{0,1,0},{0,0,1},{2,0,0}}; int nv = 4 + (r.thorough ? 1 : r.choose(2)); TMesh m; m.name = "enumerated mesh"; m.v.assign(P, P + nv); int nt = 1 + r.choose(r.thorough ? 3 : 2); bool first = true; for (int k = 0; k < nt; k++) { Tri t; for (int j = 0; j < 3; j++) t.i[j] = r.choose(nv); m.t.push_back(t); } (void)first; triCase(r, w, m, nv, TFmt()); w.finish(); }
// ---- height fields ----
static void heights(Run& r) { World w(r); int nc = 2 + r.choose(3), nr = 2 + r.choose(3), ty = r.choose(3), pat = r.choose(6); double scale = ty == 2 ? r.pick(std::vector<double>{1, .5, -2, 100}) : 1; std::vector<float> F; std::vector<double> D; std::vector<int> I; std::vector<double> H; for (int k = 0; k < nc * nr; k++) { int v = pat == 0 ? k : pat == 1 ? -k : pat == 2 ? 0 : pat == 3 ? (k * 7) % 5 - 2 : pat == 4 ? (k == nc * nr - 1 ? 50 : 3) : 100 + k % 3; F.push_back(v * .5f); D.push_back(v * .25); I.push_back(v); H.push_back(ty == 0 ? v * .5 : ty == 1 ? v * .25 : v * scale); }
    const void* data = ty == 0 ? (const void*)F.data() : ty == 1 ? (const void*)D.data() : (const void*)I.data(); std::vector<Message> ms; HeightField* h = w.own(w.pc->createHeightField(nc, nr, data, ty == 0 ? HeightField::HeightDataType::HEIGHT_FLOAT_TYPE : ty == 1 ? HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE : HeightField::HeightDataType::HEIGHT_INT_TYPE, ms, scale), "HeightField"); for (auto& x : F) x = 9e9f; for (auto& x : D) x = -9e9; for (auto& x : I) x = 123456; r.transition(); r.checked(); MC_LOG(r, "height field %d x %d, type %d, pattern %d, scale %g: %s", nc, nr, ty, pat, scale, h ? "created" : "null");
    MC_CHECK(r, h && !nErr(ms), "rejected", "valid height field rejected: %s", msgs(ms).c_str()); MC_CHECK(r, (int)h->getNbColumns() == nc && (int)h->getNbRows() == nr, "counts", "%u columns, %u rows", h->getNbColumns(), h->getNbRows()); double mn = 1e30, mx = -1e30; for (double x : H) { mn = std::min(mn, x); mx = std::max(mx, x); } for (int i = 0; i < nc; i++) for (int j = 0; j < nr; j++) MC_CHECK(r, h->getHeightAt(i, j) == (float)H[j * nc + i], "height", "height at column %d row %d is %g, not %g", i, j, (double)h->getHeightAt(i, j), H[j * nc + i]); MC_CHECK(r, h->getMinHeight() == (float)mn && h->getMaxHeight() == (float)mx, "range", "%g..%g instead of %g..%g", (double)h->getMinHeight(), (double)h->getMaxHeight(), mn, mx); w.finish(); }
static void heightDefects(Run& r) { World w(r); static const int N[] = {-2147483647, -1, 0, 1, 2, 3}; int nc = N[r.choose(6)], nr = N[r.choose(6)], ty = r.choose(3); bool bad = nc < 2 || nr < 2; std::vector<double> d(32, 1.5); std::vector<Message> ms; HeightField* h = w.own(w.pc->createHeightField(nc, nr, d.data(), ty == 0 ? HeightField::HeightDataType::HEIGHT_FLOAT_TYPE : ty == 1 ? HeightField::HeightDataType::HEIGHT_DOUBLE_TYPE : HeightField::HeightDataType::HEIGHT_INT_TYPE, ms), "HeightField"); r.transition(); r.checked(); MC_LOG(r, "height field %d x %d: %s", nc, nr, h ? "created" : "null"); MC_CHECK(r, (h == nullptr) == bad && (nErr(ms) > 0) == bad, bad ? "accepted" : "rejected", "height field of %d x %d: %s, %d errors", nc, nr, h ? "created" : "null", nErr(ms)); w.finish(); }
// ---- histories: failed and successful creations and destructions of the four kinds in any order ----
static void mix(Run& r) { World w(r); struct O { int kind; void* p; }; std::vector<O> objs; int depth = r.thorough ? 6 : 5; std::vector<float> hd(9, 1.f); for (int s = 0; s < depth; s++) { int op = r.choose(7); std::vector<Message> ms; if (op < 6) { TMesh tm = triMesh(1); Mesh pm = polyMesh(0); Fmt f; void* p = nullptr; int kind = op / 2; bool bad = op % 2;
            if (kind == 0) { if (bad) tm.t[1].i[0] = 99; Raw rv = rawV(tm.v, false, 0); TriangleVertexArray a(4, rv.at(), 12, 2, tm.t.data(), 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); p = w.own(w.pc->createTriangleMesh(a, ms), "TriangleMesh"); }
            if (kind == 1) { Raw rv = rawV(pm.v, false, 0); if (bad) { float z = 0; for (int i = 0; i < 4; i++) memcpy(rv.d.data() + 8 + i * 12 + 8, &z, 4); } VertexArray va(rv.at(), 12, 4, VertexArray::DataType::VERTEX_FLOAT_TYPE); p = w.own(w.pc->createConvexMesh(va, ms), "ConvexMesh"); }
            if (kind == 2) p = w.own(w.pc->createHeightField(bad ? 1 : 3, 3, hd.data(), HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, ms), "HeightField");
            MC_LOG(r, "create kind %d%s: %p", kind, bad ? " (invalid)" : "", p); r.checked(); MC_CHECK(r, (p == nullptr) == bad && (nErr(ms) > 0) == bad, bad ? "accepted" : "rejected", "creation of kind %d: %p, %d errors", kind, p, nErr(ms)); if (p) objs.push_back({kind, p}); }
        else { if (objs.empty()) r.prune(); int k = r.choose(objs.size()); O o = objs[k]; MC_LOG(r, "destroy kind %d %p", o.kind, o.p); if (o.kind == 0) w.pc->destroyTriangleMesh((TriangleMesh*)o.p); if (o.kind == 1) w.pc->destroyConvexMesh((ConvexMesh*)o.p); if (o.kind == 2) w.pc->destroyHeightField((HeightField*)o.p); w.gone(o.p); objs.erase(objs.begin() + k); } r.transition();
        for (auto& o : objs) { if (o.kind == 0) MC_CHECK(r, ((TriangleMesh*)o.p)->getNbTriangles() == 2 && ((TriangleMesh*)o.p)->getVertex(2).z == 1, "content", "triangle mesh changed"); if (o.kind == 1) MC_CHECK(r, ((ConvexMesh*)o.p)->getNbVertices() == 4 && ((ConvexMesh*)o.p)->getNbFaces() == 4, "content", "convex mesh changed"); if (o.kind == 2) MC_CHECK(r, ((HeightField*)o.p)->getNbColumns() == 3 && ((HeightField*)o.p)->getHeightAt(2, 2) == 1, "content", "height field changed"); } }
    mc::Hash h; for (auto& o : objs) h.u(o.kind); r.state(h.h); w.finish(); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"polyhedron-formats", polyFormats, "6 polyhedra x 3 sizes x float/double x short/int x 3 vertex strides x 2 index strides x 3 layouts of the index array", 1, 30});
    s.push_back({"polyhedron-defects", polyDefects, "4 (thorough 6) polyhedra: each index replaced by each other index or an invalid one, each face removed, repeated, flipped, truncated, each vertex dropped, added, merged, moved onto another; short and int indices; then a valid mesh", 1, 30});
    s.push_back({"polyhedron-pairs", polyPairs, "tetrahedron, pyramid (thorough: box) with any two index replacements", 1, 30});
    s.push_back({"cloud-formats", cloudFormats, "point clouds of 6 polyhedra x float/double x 4 strides", 1, 30});
    s.push_back({"triangle-formats", triFormats, "7 triangle meshes x 3 sizes x float/double x short/int x 3 vertex strides x 2 index strides x normals (none, float, double; 2 strides)", 1, 30});
    s.push_back({"triangle-defects", triDefects, "7 triangle meshes: each index replaced by each other index or an invalid one, vertices dropped, no triangles, all vertices equal, all zero, each pair of vertices coincident, each normal zero; then a valid mesh", 1, 30});
    s.push_back({"triangle-all", triSmall, "all meshes of 1..2 (thorough 1..3 with 5 vertices) triangles over 4 or 5 vertices", 1, 30});
    s.push_back({"height-formats", heights, "2..4 x 2..4 height fields x 3 data types x 6 patterns x 4 integer scales", 1, 30});
    s.push_back({"height-defects", heightDefects, "columns and rows in {-2147483647,-1,0,1,2,3} x 3 data types", 1, 30});
    s.push_back({"histories", mix, "all histories of 5 (thorough 6) creations (valid and invalid, three kinds) and destructions", 1, 30});
    return mc::main(c, v, propertyId("C23"), s, "closed polyhedron = every directed edge once with its reverse, Euler characteristic 2, no face of zero area; planarity and convexity of user-given polyhedra are the user's duty"); }
