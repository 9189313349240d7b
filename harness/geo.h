// Independent double-precision geometry used as the oracle.  A solid is a convex core (point, segment,
// triangle or polytope) inflated by a radius.  Nothing here uses the library's algorithms.
#pragma once
#include "rp.h"
namespace geo {
struct V { double x = 0, y = 0, z = 0; V() {} V(double a, double b, double c) : x(a), y(b), z(c) {} V(const Vector3& v) : x(v.x), y(v.y), z(v.z) {}
    V operator+(const V& o) const { return V(x + o.x, y + o.y, z + o.z); } V operator-(const V& o) const { return V(x - o.x, y - o.y, z - o.z); }
    V operator*(double k) const { return V(x * k, y * k, z * k); } V operator-() const { return V(-x, -y, -z); }
    double dot(const V& o) const { return x * o.x + y * o.y + z * o.z; } V cross(const V& o) const { return V(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    double len2() const { return dot(*this); } double len() const { return std::sqrt(len2()); } V unit() const { double l = len(); return l > 0 ? *this * (1 / l) : *this; }
    double operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } Vector3 r() const { return Vector3((decimal)x, (decimal)y, (decimal)z); } };
inline std::string str(const V& v) { char b[120]; snprintf(b, 120, "(%.7g,%.7g,%.7g)", v.x, v.y, v.z); return b; }
struct M { double m[3][3]; V operator*(const V& v) const { return V(m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z, m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z); }
    M operator*(const M& o) const { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { r.m[i][j] = 0; for (int k = 0; k < 3; k++) r.m[i][j] += m[i][k] * o.m[k][j]; } return r; }
    M t() const { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = m[j][i]; return r; } };
inline M ident() { M r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r.m[i][j] = i == j; return r; }
inline M rotOf(double x, double y, double z, double w) { double n = x * x + y * y + z * z + w * w; double s = n > 0 ? 2 / n : 0; M r;
    r.m[0][0] = 1 - s * (y * y + z * z); r.m[0][1] = s * (x * y - w * z); r.m[0][2] = s * (x * z + w * y);
    r.m[1][0] = s * (x * y + w * z); r.m[1][1] = 1 - s * (x * x + z * z); r.m[1][2] = s * (y * z - w * x);
    r.m[2][0] = s * (x * z - w * y); r.m[2][1] = s * (y * z + w * x); r.m[2][2] = 1 - s * (x * x + y * y); return r; }
struct T { M R = ident(); V p; T() {} T(const Transform& t) : R(rotOf(t.getOrientation().x, t.getOrientation().y, t.getOrientation().z, t.getOrientation().w)), p(t.getPosition()) {}
    V operator*(const V& v) const { return R * v + p; } V inv(const V& v) const { return R.t() * (v - p); } T operator*(const T& o) const { T r; r.R = R * o.R; r.p = R * o.p + p; return r; } };

struct Solid { std::vector<V> v; std::vector<std::vector<int>> f; std::vector<std::pair<int,int>> e; double radius = 0; int kind = 0; // 0 sphere 1 capsule 2 box 3 polytope 4 triangle
    double h = 0; V half;
    V centre() const { V c; for (auto& p : v) c = c + p; return c * (1.0 / v.size()); }
    V fn(size_t i) const { V n; auto& q = f[i]; for (size_t k = 0; k < q.size(); k++) n = n + v[q[k]].cross(v[q[(k + 1) % q.size()]]); // Newell (origin cancels for closed loops)
        return n.unit(); } };
inline void edgesFromFaces(Solid& s) { std::set<std::pair<int,int>> q; for (auto& f : s.f) for (size_t i = 0; i < f.size(); i++) { int a = f[i], b = f[(i + 1) % f.size()]; q.insert({std::min(a, b), std::max(a, b)}); } s.e.assign(q.begin(), q.end()); }
inline void orient(Solid& s) { V c = s.centre(); for (size_t i = 0; i < s.f.size(); i++) if (s.fn(i).dot(s.v[s.f[i][0]] - c) < 0) std::reverse(s.f[i].begin(), s.f[i].end()); }
inline Solid sphere(double r) { Solid s; s.v = {V()}; s.radius = r; s.kind = 0; return s; }
inline Solid capsule(double r, double h) { Solid s; s.v = {V(0, -h / 2, 0), V(0, h / 2, 0)}; s.e = {{0, 1}}; s.radius = r; s.h = h; s.kind = 1; return s; }
inline Solid box(double x, double y, double z) { Solid s; for (int i = 0; i < 8; i++) s.v.push_back(V(i & 1 ? x : -x, i & 2 ? y : -y, i & 4 ? z : -z));
    s.f = {{0,2,6,4},{1,5,7,3},{0,4,5,1},{2,3,7,6},{0,1,3,2},{4,6,7,5}}; edgesFromFaces(s); orient(s); s.kind = 2; s.half = V(x, y, z); return s; }
inline Solid polytope(const std::vector<V>& v, const std::vector<std::vector<int>>& f) { Solid s; s.v = v; s.f = f; edgesFromFaces(s); orient(s); s.kind = 3; return s; }
inline Solid triangle(const V& a, const V& b, const V& c) { Solid s; s.v = {a, b, c}; s.f = {{0, 1, 2}}; s.e = {{0,1},{1,2},{0,2}}; s.kind = 4; return s; }
inline Solid tetra(double k) { return polytope({V(k, k, k), V(k, -k, -k), V(-k, k, -k), V(-k, -k, k)}, {{0,1,2},{0,1,3},{0,2,3},{1,2,3}}); }
inline Solid place(const Solid& s, const T& t) { Solid r = s; for (auto& p : r.v) p = t * p; return r; }

// ---- distances
inline double segSeg(const V& p1, const V& q1, const V& p2, const V& q2, V* ca = nullptr, V* cb = nullptr) {
    V d1 = q1 - p1, d2 = q2 - p2, r = p1 - p2; double a = d1.len2(), e = d2.len2(), f = d2.dot(r), s, t;
    auto cl = [](double x) { return x < 0 ? 0 : x > 1 ? 1 : x; };
    if (a <= 1e-30 && e <= 1e-30) s = t = 0;
    else if (a <= 1e-30) { s = 0; t = cl(f / e); }
    else { double c = d1.dot(r); if (e <= 1e-30) { t = 0; s = cl(-c / a); }
        else { double b = d1.dot(d2), den = a * e - b * b; s = den > 1e-14 * a * e ? cl((b * f - c * e) / den) : 0; t = (b * s + f) / e; if (t < 0) { t = 0; s = cl(-c / a); } else if (t > 1) { t = 1; s = cl((b - c) / a); } } }
    V A = p1 + d1 * s, B = p2 + d2 * t; if (ca) *ca = A; if (cb) *cb = B; return (A - B).len(); }
inline double pointTri(const V& p, const V& a, const V& b, const V& c, V* out = nullptr) {   // Ericson
    V ab = b - a, ac = c - a, ap = p - a; double d1 = ab.dot(ap), d2 = ac.dot(ap); V r;
    do { if (d1 <= 0 && d2 <= 0) { r = a; break; } V bp = p - b; double d3 = ab.dot(bp), d4 = ac.dot(bp); if (d3 >= 0 && d4 <= d3) { r = b; break; }
        double vc = d1 * d4 - d3 * d2; if (vc <= 0 && d1 >= 0 && d3 <= 0) { r = a + ab * (d1 / (d1 - d3)); break; }
        V cp = p - c; double d5 = ab.dot(cp), d6 = ac.dot(cp); if (d6 >= 0 && d5 <= d6) { r = c; break; }
        double vb = d5 * d2 - d1 * d6; if (vb <= 0 && d2 >= 0 && d6 <= 0) { r = a + ac * (d2 / (d2 - d6)); break; }
        double va = d3 * d6 - d5 * d4; if (va <= 0 && (d4 - d3) >= 0 && (d5 - d6) >= 0) { r = b + (c - b) * ((d4 - d3) / ((d4 - d3) + (d5 - d6))); break; }
        double dn = 1 / (va + vb + vc); r = a + ab * (vb * dn) + ac * (vc * dn); } while (0);
    if (out) *out = r; return (p - r).len(); }
inline double insideDepth(const Solid& s, const V& p) { // >0: outside by the largest face distance (polytope core only)
    double m = -1e300; for (size_t i = 0; i < s.f.size(); i++) m = std::max(m, s.fn(i).dot(p - s.v[s.f[i][0]])); return m; }
inline double pointCore(const Solid& s, const V& p, V* cp = nullptr) {   // distance to the core (0 inside a polytope)
    if (s.v.size() == 1) { if (cp) *cp = s.v[0]; return (p - s.v[0]).len(); }
    if (s.v.size() == 2) { V b; return segSeg(p, p, s.v[0], s.v[1], nullptr, cp ? cp : &b); }
    if (s.kind != 4 && insideDepth(s, p) <= 0) { if (cp) *cp = p; return 0; }
    double best = 1e300; for (auto& q : s.f) for (size_t k = 1; k + 1 < q.size(); k++) { V r; double d = pointTri(p, s.v[q[0]], s.v[q[k]], s.v[q[k + 1]], &r); if (d < best) { best = d; if (cp) *cp = r; } } return best; }
inline bool crosses(const V& p, const V& q, const Solid& t) { V n = (t.v[1] - t.v[0]).cross(t.v[2] - t.v[0]); double a = n.dot(p - t.v[0]), b = n.dot(q - t.v[0]); if (a * b > 0 || a == b) return false; V x = p + (q - p) * (a / (a - b)); return pointTri(x, t.v[0], t.v[1], t.v[2]) < 1e-12; }
inline double coreDist(const Solid& a, const Solid& b) {                 // distance of disjoint or flat cores
    if (b.kind == 4) for (auto& x : a.e) if (crosses(a.v[x.first], a.v[x.second], b)) return 0;
    if (a.kind == 4) for (auto& x : b.e) if (crosses(b.v[x.first], b.v[x.second], a)) return 0;
    double best = 1e300; for (auto& p : a.v) best = std::min(best, pointCore(b, p)); for (auto& p : b.v) best = std::min(best, pointCore(a, p));
    for (auto& x : a.e) for (auto& y : b.e) best = std::min(best, segSeg(a.v[x.first], a.v[x.second], b.v[y.first], b.v[y.second])); return best; }
inline void interval(const Solid& s, const V& n, double& lo, double& hi) { lo = 1e300; hi = -1e300; for (auto& p : s.v) { double d = p.dot(n); lo = std::min(lo, d); hi = std::max(hi, d); } }
// signed distance of two solids: >0 apart, <0 minus the minimum translation that separates them. axis: separating/penetration direction from a to b
inline double signedDist(const Solid& a, const Solid& b, V* axis = nullptr) {
    std::vector<V> ax; auto addFaces = [&](const Solid& s) { for (size_t i = 0; i < s.f.size(); i++) { V n = s.fn(i); if (n.len2() > 0.5) ax.push_back(n); } };
    addFaces(a); addFaces(b);
    for (auto& x : a.e) for (auto& y : b.e) { V n = (a.v[x.second] - a.v[x.first]).cross(b.v[y.second] - b.v[y.first]); double l = n.len(); if (l > 1e-7 * (a.v[x.second] - a.v[x.first]).len() * (b.v[y.second] - b.v[y.first]).len()) ax.push_back(n * (1 / l)); }
    auto planar = [&](const Solid& s) { if (s.kind == 4) for (auto& x : s.e) { V n = s.fn(0).cross(s.v[x.second] - s.v[x.first]).unit(); if (n.len2() > .5) ax.push_back(n); } };
    bool flatA = a.v.size() <= 2 || a.kind == 4, flatB = b.v.size() <= 2 || b.kind == 4;
    if (flatA && flatB) { planar(a); planar(b); }
    bool sep = a.f.empty() && b.f.empty(); double pen = 1e300; V paxis;
    if (!sep) for (auto& n : ax) { double al, ah, bl, bh; interval(a, n, al, ah); interval(b, n, bl, bh);
        double o1 = ah - bl, o2 = bh - al; if (o1 < 0 || o2 < 0) { sep = true; break; }
        if (o1 < pen) { pen = o1; paxis = n; } if (o2 < pen) { pen = o2; paxis = -n; } }
    if (!sep && flatA && flatB) sep = true;   // degenerate pairs are measured by distance (0 when they cross)
    if (sep) { double d = coreDist(a, b);
        if (axis) { V best; double bd = 1e300; for (auto& p : a.v) { V q; double dd = pointCore(b, p, &q); if (dd < bd) { bd = dd; best = q - p; } } for (auto& p : b.v) { V q; double dd = pointCore(a, p, &q); if (dd < bd) { bd = dd; best = p - q; } }
            for (auto& x : a.e) for (auto& y : b.e) { V u, w; double dd = segSeg(a.v[x.first], a.v[x.second], b.v[y.first], b.v[y.second], &u, &w); if (dd < bd) { bd = dd; best = w - u; } } *axis = best.unit(); }
        return d - a.radius - b.radius; }
    if (axis) *axis = paxis; return -pen - a.radius - b.radius; }
// overlap along one direction: how far b must move along n (unit, from a to b) to be clear of a
inline double overlapAlong(const Solid& a, const Solid& b, const V& n) { double al, ah, bl, bh; interval(a, n, al, ah); interval(b, n, bl, bh); return ah + a.radius - (bl - b.radius); }
// signed distance of a point to the solid surface (negative inside; exact outside)
inline double pointSolid(const Solid& s, const V& p) { if (s.f.empty() || s.kind == 4) return pointCore(s, p) - s.radius; double m = insideDepth(s, p); if (m <= 0) return m - s.radius; return pointCore(s, p) - s.radius; }
inline void bounds(const Solid& s, V& lo, V& hi) { lo = V(1e300, 1e300, 1e300); hi = -lo; for (auto& p : s.v) { lo = V(std::min(lo.x, p.x - s.radius), std::min(lo.y, p.y - s.radius), std::min(lo.z, p.z - s.radius)); hi = V(std::max(hi.x, p.x + s.radius), std::max(hi.y, p.y + s.radius), std::max(hi.z, p.z + s.radius)); } }
// first entry of the segment a + t (b-a), t in [0,1] into the solid: returns t or -1; normal = outward surface normal there
inline double raySolid(const Solid& s, const V& a, const V& b, V* normal = nullptr) {
    V d = b - a; auto sph = [&](const V& c, double r) -> double { V m = a - c; double A = d.len2(), B = m.dot(d), C = m.len2() - r * r, D = B * B - A * C; if (D < 0 || A == 0) return -1; double t = (-B - std::sqrt(D)) / A; return t >= 0 ? t : -1; };
    if (s.v.size() == 1) { double t = sph(s.v[0], s.radius); if (t < 0 || t > 1) return -1; if (normal) *normal = (a + d * t - s.v[0]).unit(); return t; }
    if (s.v.size() == 2) { double best = -1; V u = (s.v[1] - s.v[0]); double L = u.len(); u = u * (1 / L); // cylinder side
        V m = a - s.v[0]; V dp = d - u * d.dot(u), mp = m - u * m.dot(u); double A = dp.len2(), B = dp.dot(mp), C = mp.len2() - s.radius * s.radius, D = B * B - A * C;
        if (A > 1e-24 && D >= 0) { double t = (-B - std::sqrt(D)) / A; double k = (m + d * t).dot(u); if (t >= 0 && k >= 0 && k <= L) best = t; }
        for (int i = 0; i < 2; i++) { double t = sph(s.v[i], s.radius); if (t >= 0) { double k = (a + d * t - s.v[0]).dot(u); if ((i == 0 ? k <= 0 : k >= L) && (best < 0 || t < best)) best = t; } }
        if (best < 0 || best > 1) return -1; if (normal) { V p = a + d * best, c; pointCore(s, p, &c); *normal = (p - c).unit(); } return best; }
    double t0 = -1e300, t1 = 1e300; V n0; for (size_t i = 0; i < s.f.size(); i++) { V n = s.fn(i); double den = n.dot(d), num = n.dot(s.v[s.f[i][0]] - a); if (den == 0) { if (num < 0) return -1; continue; } double t = num / den; if (den < 0) { if (t > t0) { t0 = t; n0 = n; } } else t1 = std::min(t1, t); }
    if (t0 > t1 || t0 < 0 || t0 > 1) return -1; if (normal) *normal = n0; return t0; }
} // namespace geo
