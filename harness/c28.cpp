// C28: laws of vectors, matrices, quaternions, transforms and geometric helpers, over finite grids that hold the special
// cases (axes, half turns, ties, nearly degenerate input), against long double arithmetic.
#include "rp.h"
#include <reactphysics3d/mathematics/mathematics.h>
#include <reactphysics3d/mathematics/Matrix2x2.h>
#include <reactphysics3d/mathematics/mathematics_functions.h>
#include <reactphysics3d/memory/DefaultAllocator.h>
using namespace rp3d; typedef long double ld;
static const ld E = std::numeric_limits<decimal>::epsilon();
struct L3 { ld x, y, z; ld operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; } };
static L3 l3(const Vector3& v) { return {v.x, v.y, v.z}; }
static L3 operator+(L3 a, L3 b) { return {a.x + b.x, a.y + b.y, a.z + b.z}; } static L3 operator-(L3 a, L3 b) { return {a.x - b.x, a.y - b.y, a.z - b.z}; } static L3 operator*(L3 a, ld s) { return {a.x * s, a.y * s, a.z * s}; }
static ld dot(L3 a, L3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; } static L3 cross(L3 a, L3 b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; } static ld len(L3 a) { return sqrtl(dot(a, a)); }
struct L4 { ld x, y, z, w; }; static L4 l4(const Quaternion& q) { return {q.x, q.y, q.z, q.w}; } static ld len(L4 q) { return sqrtl(q.x * q.x + q.y * q.y + q.z * q.z + q.w * q.w); }
static L4 operator*(L4 a, L4 b) { return {a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y, a.w * b.y + a.y * b.w + a.z * b.x - a.x * b.z, a.w * b.z + a.z * b.w + a.x * b.y - a.y * b.x, a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z}; }
static L4 unit(L4 q) { ld l = len(q); return {q.x / l, q.y / l, q.z / l, q.w / l}; }
static L3 rot(L4 q, L3 v) { q = unit(q); L3 u{q.x, q.y, q.z}; L3 t = cross(u, v) * 2; return v + t * q.w + cross(u, t); }
static ld between(L4 a, L4 b) { a = unit(a); b = unit(b); L4 c = L4{-a.x, -a.y, -a.z, a.w} * b; return 2 * atan2l(sqrtl(c.x * c.x + c.y * c.y + c.z * c.z), fabsl(c.w)); }   // angle of the rotation from a to b
static std::string st(L3 v) { char b[160]; snprintf(b, 160, "(%.9Lg,%.9Lg,%.9Lg)", v.x, v.y, v.z); return b; } static std::string st(L4 v) { char b[160]; snprintf(b, 160, "(%.9Lg,%.9Lg,%.9Lg;%.9Lg)", v.x, v.y, v.z, v.w); return b; }
static Vector3 v3(L3 a) { return Vector3((decimal)a.x, (decimal)a.y, (decimal)a.z); }
static bool near(ld a, ld b, ld tol) { return fabsl(a - b) <= tol; } static bool near(L3 a, L3 b, ld tol) { return len(a - b) <= tol; }
#define CK(cond, sig, ...) MC_CHECK(r, cond, sig, __VA_ARGS__)
static void seen(Run& r, L3 v) { mc::Hash h; h.d((double)v.x); h.d((double)v.y); h.d((double)v.z); r.state(h.h); r.transition(); }
static const decimal SC[] = {1, decimal(1e-2), 100};
// ---- vectors
static const decimal VA[] = {0, 1, -1, decimal(.5), -3, decimal(1e-3), decimal(.1)};
static Vector3 pick3(Run& r, int n) { decimal a = VA[r.choose(n)], b = VA[r.choose(n)], c = VA[r.choose(n)]; return Vector3(a, b, c); }
static void vectorPairs(Run& r) {
    int n = r.thorough ? 7 : 6; Vector3 a = pick3(r, n), b = pick3(r, n); L3 A = l3(a), B = l3(b); ld m = (len(A) + 1) * (len(B) + 1); MC_LOG(r, "a = %s, b = %s", st(A).c_str(), st(B).c_str());
    CK(near(a.dot(b), dot(A, B), 4 * E * m), "dot", "dot is %g", (double)a.dot(b)); CK(a.dot(b) == b.dot(a), "dot", "dot is not symmetric"); L3 c = l3(a.cross(b)); CK(near(c, cross(A, B), 8 * E * m), "cross", "cross product is %s, not %s", st(c).c_str(), st(cross(A, B)).c_str());
    CK(near(dot(c, A), 0, 20 * E * m * m) && near(dot(c, B), 0, 20 * E * m * m), "cross", "cross product is not orthogonal");
    CK(near(l3(a + b), A + B, 4 * E * m) && near(l3(a - b), A - B, 4 * E * m) && l3(-a).x == -A.x && l3(-a).y == -A.y && l3(-a).z == -A.z, "sum", "sum or difference is wrong");
    Vector3 t = a; t += b; CK(t == a + b, "assign", "+= differs from +"); t = a; t -= b; CK(t == a - b, "assign", "-= differs from -"); L3 p = l3(a * b); CK(near(p, {A.x * B.x, A.y * B.y, A.z * B.z}, 4 * E * m), "product", "componentwise product is %s", st(p).c_str());
    for (int i = 0; i < 3; i++) { CK(a[i] == (decimal)A[i], "index", "component %d", i); CK(Vector3::min(a, b)[i] == (decimal)std::min(A[i], B[i]) && Vector3::max(a, b)[i] == (decimal)std::max(A[i], B[i]), "minmax", "component %d of min/max is wrong", i); }
    bool lt = A.x != B.x ? A.x < B.x : A.y != B.y ? A.y < B.y : A.z < B.z, eq = A.x == B.x && A.y == B.y && A.z == B.z; CK((a < b) == lt && (a == b) == eq && (a != b) == !eq, "order", "order or equality is wrong"); CK(!((a < b) && (b < a)), "order", "both less than each other");
    for (int i = 0; i < 7; i++) { decimal s = VA[i]; t = a; t *= s; CK(near(l3(a * s), A * s, 4 * E * m * 3) && (s * a) == (a * s) && t == a * s, "scale", "product with %g is wrong", (double)s); if (s != 0) { t = a; t /= s; CK(near(l3(a / s), A * (1 / (ld)s), 4 * E * len(A) / fabsl(s)) && t == a / s, "divide", "quotient by %g is %s", (double)s, st(l3(a / s)).c_str()); } }
    if (B.x && B.y && B.z) CK(near(l3(a / b), L3{A.x / B.x, A.y / B.y, A.z / B.z}, 8 * E * len(A) / std::min({fabsl(B.x), fabsl(B.y), fabsl(B.z)})), "divide", "quotient of the vectors is %s", st(l3(a / b)).c_str());
    bool par = areParallelVectors(a, b), ort = areOrthogonalVectors(a, b); ld cl = dot(cross(A, B), cross(A, B)); ld ll = dot(A, A) * dot(B, B); if (ll > 1e-24L && ll < 1e24L) { if (cl > 1e-3L * ll) CK(!par, "parallel", "reported as parallel"); if (cl < 1e-8L * ll) CK(par, "parallel", "reported as not parallel"); } if (fabsl(dot(A, B)) > 2e-3L) CK(!ort, "orthogonal", "reported as orthogonal"); if (dot(A, B) == 0) CK(ort, "orthogonal", "reported as not orthogonal");
    CK(Vector3::approxEqual(a, b, decimal(.01)) == (fabsl(A.x - B.x) < .01L && fabsl(A.y - B.y) < .01L && fabsl(A.z - B.z) < .01L), "approx", "approxEqual is wrong"); seen(r, c + p);
}
static const decimal VB[] = {0, 1, -1, decimal(.5), decimal(-.5), 2, -3, decimal(1e-2), decimal(-1e-2), decimal(1.0000001), decimal(1e-4), 50, decimal(.7071068)};
static void vectorSingle(Run& r) {
    Vector3 a(VB[r.choose(13)], VB[r.choose(13)], VB[r.choose(13)]); decimal s = SC[r.choose(3)]; a = a * s; L3 A = l3(a); ld l = len(A); MC_LOG(r, "a = %s", st(A).c_str()); seen(r, A);
    CK(near(a.length(), l, 4 * E * l) && near(a.lengthSquare(), l * l, 6 * E * l * l), "length", "length is %g, not %Lg", (double)a.length(), l); CK(a.isFinite(), "finite", "not finite");
    if (l > 3 * E) { L3 u = l3(a.getUnit()); CK(near(u, A * (1 / l), 6 * E), "unit", "unit vector is %s", st(u).c_str()); Vector3 n = a; n.normalize(); CK(near(l3(n), A * (1 / l), 6 * E), "unit", "normalize gives %s", st(l3(n)).c_str()); L3 o = l3(a.getOneUnitOrthogonalVector()); CK(near(len(o), 1, 6 * E) && near(dot(o, A) / l, 0, 6 * E), "orthogonal", "%s is not a unit vector orthogonal to it", st(o).c_str());
        for (decimal q : {decimal(.5), decimal(1), decimal(3)}) { L3 c = l3(clamp(a, q)); ld w = std::min(l, (ld)q); if (fabsl(l - q) > 4 * E * q) CK(near(c, A * (w / l), 8 * E * w), "clamp", "clamp to length %g gives %s", (double)q, st(c).c_str()); } }
    else { Vector3 n = a; n.normalize(); CK(n.isFinite() && a.getUnit().isFinite(), "unit", "normalising a zero vector gives something that is not finite"); }
    CK(A[a.getMinAxis()] == std::min(A.x, std::min(A.y, A.z)) && A[a.getMaxAxis()] == std::max(A.x, std::max(A.y, A.z)) && a.getMinValue() == (decimal)A[a.getMinAxis()] && a.getMaxValue() == (decimal)A[a.getMaxAxis()], "axis", "minimal axis %d, maximal axis %d", a.getMinAxis(), a.getMaxAxis());
    L3 b = l3(a.getAbsoluteVector()); CK(b.x == fabsl(A.x) && b.y == fabsl(A.y) && b.z == fabsl(A.z), "abs", "absolute vector is %s", st(b).c_str());
    if (fabsl(l * l - 1) > 4 * E) CK(!a.isUnit(), "isUnit", "a vector of length %Lg is said to be unit", l); if (l > 2 * sqrtl(E)) CK(!a.isZero(), "isZero", "said to be zero"); if (l == 0) CK(a.isZero(), "isZero", "said not to be zero"); if (l == 1) CK(a.isUnit(), "isUnit", "said not to be unit");
    Vector3 z = a; z.setToZero(); CK(z == Vector3::zero() && z == Vector3(0, 0, 0), "zero", "setToZero"); z.setAllValues(a.x, a.y, a.z); CK(z == a, "set", "setAllValues"); for (int i = 0; i < 3; i++) { Vector3 f = a; f[i] = std::numeric_limits<decimal>::infinity(); CK(!f.isFinite(), "finite", "infinity is said to be finite"); f[i] = std::numeric_limits<decimal>::quiet_NaN(); CK(!f.isFinite(), "finite", "NaN is said to be finite"); }
    Matrix3x3 k = Matrix3x3::computeSkewSymmetricMatrixForCrossProduct(a); Vector3 w(decimal(.3), -2, 5); CK(near(l3(k * w), cross(A, l3(w)), 20 * E * (l + 1) * 6), "skew", "skew matrix * w is not a x w"); Vector3 x = a / decimal(2); CK(near(l3(x), A * .5L, 4 * E * l), "divide", "a/2"); 
}
static void vectorTwo(Run& r) {
    Vector2 a(VB[r.choose(13)], VB[r.choose(13)]), b(VB[r.choose(13)], VB[r.choose(13)]); ld ax = a.x, ay = a.y, bx = b.x, by = b.y, l = sqrtl(ax * ax + ay * ay), m = (fabsl(ax) + fabsl(ay) + 1) * (fabsl(bx) + fabsl(by) + 1); MC_LOG(r, "a = (%g,%g), b = (%g,%g)", (double)a.x, (double)a.y, (double)b.x, (double)b.y); seen(r, {ax * bx, ay, by});
    CK(near(a.dot(b), ax * bx + ay * by, 4 * E * m) && near(a.length(), l, 4 * E * l) && near(a.lengthSquare(), l * l, 6 * E * l * l), "dot", "dot or length"); Vector2 c = a + b, d = a - b, e = a * b, n = -a; CK(near(c.x, ax + bx, 2 * E * m) && near(c.y, ay + by, 2 * E * m) && near(d.x, ax - bx, 2 * E * m) && near(d.y, ay - by, 2 * E * m) && near(e.x, ax * bx, 2 * E * m) && near(e.y, ay * by, 2 * E * m) && n.x == -a.x && n.y == -a.y, "sum", "sum, difference or product");
    Vector2 t = a; t += b; CK(t == c, "assign", "+="); t = a; t -= b; CK(t == d, "assign", "-="); t = a; t *= b.x; CK(t == a * b.x && t == b.x * a, "assign", "*="); if (std::abs(b.x) > decimal(1e-6)) { t = a; t /= b.x; CK(t == a / b.x && near(t.x, ax / bx, 2 * E * m / fabsl(bx)) && near(t.y, ay / bx, 2 * E * m / fabsl(bx)), "divide", "/="); }
    bool lt = ax != bx ? ax < bx : ay < by, eq = ax == bx && ay == by; CK((a < b) == lt && (a == b) == eq && (a != b) == !eq, "order", "order"); Vector2 mn = Vector2::min(a, b), mx = Vector2::max(a, b); CK(mn.x == std::min(a.x, b.x) && mn.y == std::min(a.y, b.y) && mx.x == std::max(a.x, b.x) && mx.y == std::max(a.y, b.y), "minmax", "min/max"); CK(a[a.getMinAxis()] == std::min(a.x, a.y) && a[a.getMaxAxis()] == std::max(a.x, a.y) && a.getAbsoluteVector() == Vector2(std::abs(a.x), std::abs(a.y)), "axis", "axis");
    if (l > 3 * E) { Vector2 u = a.getUnit(), v = a; v.normalize(); CK(near(u.x, ax / l, 6 * E) && near(u.y, ay / l, 6 * E) && near(v.x, ax / l, 6 * E) && near(v.y, ay / l, 6 * E), "unit", "unit"); Vector2 o = a.getOneUnitOrthogonalVector(); CK(near((ld)o.x * o.x + (ld)o.y * o.y, 1, 8 * E) && near(o.x * ax + o.y * ay, 0, 6 * E * l), "orthogonal", "orthogonal vector (%g,%g)", (double)o.x, (double)o.y); } else { Vector2 v = a; v.normalize(); CK(v.isFinite() && a.getUnit().isFinite(), "unit", "not finite"); }
}
// ---- matrices
struct M3 { ld m[3][3]; }; static M3 lm(const Matrix3x3& a) { M3 q; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) q.m[i][j] = a[i][j]; return q; }
static M3 mul(const M3& a, const M3& b) { M3 q; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { q.m[i][j] = 0; for (int k = 0; k < 3; k++) q.m[i][j] += a.m[i][k] * b.m[k][j]; } return q; }
static ld det(const M3& a) { return a.m[0][0] * (a.m[1][1] * a.m[2][2] - a.m[1][2] * a.m[2][1]) - a.m[0][1] * (a.m[1][0] * a.m[2][2] - a.m[1][2] * a.m[2][0]) + a.m[0][2] * (a.m[1][0] * a.m[2][1] - a.m[1][1] * a.m[2][0]); }
static ld diff(const M3& a, const M3& b) { ld d = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) d = std::max(d, fabsl(a.m[i][j] - b.m[i][j])); return d; } static ld norm(const M3& a) { M3 z{}; return diff(a, z); }
static const M3 ID = {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}};
static std::string st(const M3& m) { std::string s; char b[60]; for (int i = 0; i < 9; i++) { snprintf(b, 60, "%s%.9Lg", i ? i % 3 ? " " : "; " : "", m.m[i / 3][i % 3]); s += b; } return "[" + s + "]"; }
static void matrices(Run& r) {
    static const decimal W[] = {0, 1, -1, decimal(.5), 2, decimal(.1)}; int n = r.thorough ? 5 : 4; decimal v[9]; for (auto& x : v) x = W[r.choose(n)]; Matrix3x3 a(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8]); M3 A = lm(a); MC_LOG(r, "A = %s", st(A).c_str()); r.transition(); mc::Hash hh; for (auto x : v) hh.d(x); r.state(hh.h);
    for (int i = 0; i < 9; i++) if (A.m[i / 3][i % 3] != v[i] || a.getRow(i / 3)[i % 3] != v[i] || a.getColumn(i % 3)[i / 3] != v[i] || a.getTranspose()[i % 3][i / 3] != v[i] || a.getAbsoluteMatrix()[i / 3][i % 3] != std::abs(v[i]) || (-a)[i / 3][i % 3] != -v[i]) r.fail("entries", "entry %d of rows, columns, transpose, absolute or negative matrix is wrong", i);
    CK(near(a.getTrace(), (ld)v[0] + v[4] + v[8], 8 * E * 6), "trace", "trace %g", (double)a.getTrace()); ld d = det(A); CK(near(a.getDeterminant(), d, 60 * E * 8), "determinant", "determinant is %g, not %Lg", (double)a.getDeterminant(), d);
    if (fabsl(d) > 1e-3L) { M3 I = lm(a.getInverse()); ld cond = norm(A) * norm(I); CK(diff(mul(A, I), ID) <= 100 * E * (1 + cond) * 9 && diff(mul(I, A), ID) <= 100 * E * (1 + cond) * 9, "inverse", "A * inverse = %s", st(mul(A, I)).c_str()); CK(diff(lm(a.getInverse(a.getDeterminant())), I) == 0, "inverse", "inverse with given determinant differs"); }
    Matrix3x3 b(decimal(.5), -2, 1, decimal(.25), 3, 0, -1, 1, decimal(.125)); M3 B = lm(b); CK(diff(lm(a * b), mul(A, B)) <= 40 * E && diff(lm(b * a), mul(B, A)) <= 40 * E, "product", "product of matrices is wrong"); Vector3 x(decimal(.3), -2, 5); L3 X = l3(x), y = l3(a * x); for (int i = 0; i < 3; i++) CK(near(y[i], A.m[i][0] * X.x + A.m[i][1] * X.y + A.m[i][2] * X.z, 60 * E), "apply", "row %d of A x", i);
    CK(near(l3((a * b) * x), l3(a * (b * x)), 400 * E), "associative", "(A B) x != A (B x)"); Matrix3x3 s = a + b, q = a - b, k = a * decimal(3), k2 = decimal(3) * a, t = a; t += b; Matrix3x3 u = a; u -= b; Matrix3x3 w = a; w *= 3; for (int i = 0; i < 9; i++) { int p = i / 3, c = i % 3; if (!near(s[p][c], A.m[p][c] + B.m[p][c], 8 * E) || !near(q[p][c], A.m[p][c] - B.m[p][c], 8 * E) || !near(k[p][c], A.m[p][c] * 3, 16 * E) || k2[p][c] != k[p][c] || t[p][c] != s[p][c] || u[p][c] != q[p][c] || w[p][c] != k[p][c]) r.fail("arithmetic", "entry %d of sum, difference or multiple is wrong", i); }
    CK(a == a && !(a != a) && !(a == Matrix3x3::identity()) == (diff(A, ID) != 0), "equality", "equality is wrong"); Matrix3x3 e = a; int one = 0; for (int i = 0; i < 9; i++) { Matrix3x3 f = a; f[i / 3][i % 3] += 1; one += !(f == a) && f != a; } CK(one == 9, "equality", "matrices that differ in one entry are equal"); e.setToIdentity(); CK(e == Matrix3x3::identity() && diff(lm(e), ID) == 0, "identity", "identity"); e.setToZero(); CK(e == Matrix3x3::zero() && norm(lm(e)) == 0, "zero", "zero");
}
static void matricesTwo(Run& r) {
    static const decimal W[] = {0, 1, -1, decimal(.5), 2, decimal(.1), -3, 100}; decimal v[4]; for (auto& x : v) x = W[r.choose(8)]; Matrix2x2 a(v[0], v[1], v[2], v[3]); ld d = (ld)v[0] * v[3] - (ld)v[1] * v[2], m = 0; for (auto x : v) m = std::max(m, (ld)std::abs(x)); MC_LOG(r, "A = [%g %g; %g %g]", (double)v[0], (double)v[1], (double)v[2], (double)v[3]); r.transition(); mc::Hash hh; for (auto x : v) hh.d(x); r.state(hh.h);
    for (int i = 0; i < 4; i++) if (a[i / 2][i % 2] != v[i] || a.getRow(i / 2)[i % 2] != v[i] || a.getColumn(i % 2)[i / 2] != v[i] || a.getTranspose()[i % 2][i / 2] != v[i] || a.getAbsoluteMatrix()[i / 2][i % 2] != std::abs(v[i]) || (-a)[i / 2][i % 2] != -v[i]) r.fail("entries", "entry %d", i);
    CK(near(a.getTrace(), (ld)v[0] + v[3], 4 * E * m) && near(a.getDeterminant(), d, 6 * E * m * m), "determinant", "determinant is %g, not %Lg", (double)a.getDeterminant(), d);
    if (fabsl(d) > 1e-3L * (1 + m)) { Matrix2x2 I = a.getInverse(); ld n = 0; for (int i = 0; i < 4; i++) n = std::max(n, (ld)std::abs(I[i / 2][i % 2])); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { ld x = (ld)a[i][0] * I[0][j] + (ld)a[i][1] * I[1][j]; CK(near(x, i == j, 40 * E * (1 + m * n) * (1 + m * m / fabsl(d))), "inverse", "entry %d,%d of A * inverse is %Lg", i, j, x); } }
    Matrix2x2 b(decimal(.5), -2, 1, 3); Matrix2x2 p = a * b, s = a + b, q = a - b, k = a * decimal(3), t = a; t += b; Matrix2x2 u = a; u -= b; Matrix2x2 w = a; w *= 3; Vector2 x(decimal(.3), -2), y = a * x; for (int i = 0; i < 2; i++) { CK(near(y[i], (ld)a[i][0] * x[0] + (ld)a[i][1] * x[1], 12 * E * (1 + m)), "apply", "A x"); for (int j = 0; j < 2; j++) { CK(near(p[i][j], (ld)a[i][0] * b[0][j] + (ld)a[i][1] * b[1][j], 20 * E * (1 + m)), "product", "A B"); if (!near(s[i][j], (ld)a[i][j] + b[i][j], 4 * E * (3 + m)) || !near(q[i][j], (ld)a[i][j] - b[i][j], 4 * E * (3 + m)) || !near(k[i][j], (ld)a[i][j] * 3, 6 * E * m) || (decimal(3) * a)[i][j] != k[i][j] || t[i][j] != s[i][j] || u[i][j] != q[i][j] || w[i][j] != k[i][j]) r.fail("arithmetic", "sum, difference or multiple"); Matrix2x2 f = a; f[i][j] += 1; CK(f != a && !(f == a), "equality", "matrices that differ in an entry are equal"); } } CK(a == a && !(a != a), "equality", "A != A"); Matrix2x2 e = a; e.setToIdentity(); CK(e == Matrix2x2::identity() && e[0][0] == 1 && e[1][1] == 1 && e[0][1] == 0 && e[1][0] == 0, "identity", "identity"); e.setToZero(); CK(e == Matrix2x2::zero() && e[0][0] == 0 && e[1][1] == 0, "zero", "zero");
}
// ---- rotations
static const ld AN[] = {0, 1e-4L, 1e-3L, .1L, M_PIl / 4, M_PIl / 2, 2 * M_PIl / 3, 2.5L, M_PIl - 1e-2L, M_PIl - 1e-3L, M_PIl - 1e-4L, M_PIl, M_PIl + 1e-3L, 4, 3 * M_PIl / 2, 2 * M_PIl - 1e-2L, 2 * M_PIl - 1e-3L, 2 * M_PIl}; static const int NAN_ = sizeof AN / sizeof *AN;
static L3 axisOf(int k) { if (k < 27) { L3 a{(ld)(k % 3 - 1), (ld)(k / 3 % 3 - 1), (ld)(k / 9 - 1)}; if (k == 13) return {1, 2, 3}; return a * (1 / len(a)); } static const L3 X[] = {{1, 1e-3L, 0}, {1e-4L, 1, 1e-4L}, {0, -1e-3L, 1}, {1, 1 + 1e-4L, 0}, {1, 1, 1 - 1e-4L}, {.3L, -.5L, .8L}}; return X[k - 27] * (1 / len(X[k - 27])); } static const int NAX = 33;
static L4 rotation(L3 a, ld t) { a = a * (1 / len(a)); ld s = sinl(t / 2); return {a.x * s, a.y * s, a.z * s, cosl(t / 2)}; } static Quaternion q4(L4 q) { return Quaternion((decimal)q.x, (decimal)q.y, (decimal)q.z, (decimal)q.w); }
static const L3 PT[] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {.3L, -2, 5}};
static void rotations(Run& r) {
    L3 ax = axisOf(r.choose(NAX)); ld an = AN[r.choose(NAN_)]; bool neg = r.flip(); L4 Q = rotation(ax, an); if (neg) Q = {-Q.x, -Q.y, -Q.z, -Q.w}; Quaternion q = q4(Q); Q = l4(q); MC_LOG(r, "axis %s angle %.9Lg, q = %s", st(ax).c_str(), an, st(Q).c_str()); r.transition(); mc::Hash h; h.d(q.x); h.d(q.y); h.d(q.z); h.d(q.w); r.state(h.h);
    CK(q.isValid() && q.isUnit() && q.isFinite(), "valid", "a rotation is said not to be a unit quaternion"); CK(near(q.length(), 1, 6 * E) && near(q.lengthSquare(), 1, 8 * E), "length", "length %g", (double)q.length());
    Matrix3x3 m = q.getMatrix(); M3 M = lm(m); for (auto& p : PT) { L3 y = rot(Q, p); CK(near(l3(q * v3(p)), y, 20 * E * 6), "rotate", "q * %s = %s, not %s", st(p).c_str(), st(l3(q * v3(p))).c_str(), st(y).c_str()); CK(near(l3(m * v3(p)), y, 30 * E * 6), "matrix", "matrix * %s = %s, not %s", st(p).c_str(), st(l3(m * v3(p))).c_str(), st(y).c_str()); CK(near(l3(q.getInverse() * (q * v3(p))), p, 40 * E * 6) && near(l3(q.getConjugate() * (q * v3(p))), p, 40 * E * 6), "inverse", "inverse rotation does not undo the rotation"); }
    M3 T; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) T.m[i][j] = M.m[j][i]; CK(diff(mul(M, T), ID) < 20 * E && near(det(M), 1, 20 * E), "orthogonal", "matrix %s is not a rotation", st(M).c_str());
    // matrix -> quaternion, also with rounding noise in each entry
    for (int e = -1; e < 18; e++) { Matrix3x3 w = m; if (e >= 0) w[e % 9 / 3][e % 3] += (e < 9 ? 1 : -1) * 2 * (decimal)E; Quaternion b(w); CK(b.isFinite() && near(len(l4(b)), 1, 60 * E), "from-matrix", "matrix %s gives the quaternion %s of length %Lg", st(lm(w)).c_str(), st(l4(b)).c_str(), len(l4(b))); ld d = between(Q, l4(b)); CK(d <= 60 * E, "from-matrix", "matrix %s gives the quaternion %s, which is %Lg rad away from %s", st(lm(w)).c_str(), st(l4(b)).c_str(), d, st(Q).c_str()); }
    decimal a2 = -1; Vector3 x2; q.getRotationAngleAxis(a2, x2); ld half = sqrtl(Q.x * Q.x + Q.y * Q.y + Q.z * Q.z); CK(std::isfinite(a2) && finite(x2), "angle-axis", "angle %g, axis %s", (double)a2, str(x2).c_str()); CK(near(a2, 2 * atan2l(half, Q.w), 4 * sqrtl(E)), "angle", "angle is %g, not %Lg", (double)a2, 2 * atan2l(half, Q.w)); if (half > 20 * E) { CK(near(l3(x2), L3{Q.x, Q.y, Q.z} * (1 / half), 10 * E), "axis", "axis is %s", st(l3(x2)).c_str()); CK(between(Q, rotation(l3(x2), a2)) <= 8 * sqrtl(E), "angle-axis", "angle %g and axis %s are another rotation", (double)a2, str(x2).c_str()); }
    Quaternion n = q * decimal(3); n.normalize(); CK(between(l4(n), Q) < 8 * E && near(len(l4(n)), 1, 6 * E) && between(l4((q * decimal(.25)).getUnit()), Q) < 8 * E, "normalize", "normalize changes the rotation"); Quaternion i = q; i.inverse(); CK(i == q.getInverse(), "inverse", "inverse() differs from getInverse()"); L4 one = l4(q * q.getInverse()); CK(near(one.w, 1, 10 * E) && fabsl(one.x) + fabsl(one.y) + fabsl(one.z) < 10 * E, "inverse", "q * inverse = %s", st(one).c_str());
    Quaternion two = q + q, zero = q - q, p1 = q; p1 += q; Quaternion p0 = q; p0 -= q; CK(two == q * decimal(2) && zero == Quaternion(0, 0, 0, 0) && p1 == two && p0 == zero && q.getVectorV() == Vector3(q.x, q.y, q.z) && Quaternion(q.w, q.getVectorV()) == q && Quaternion(q.getVectorV(), q.w) == q && near(q.dot(q), 1, 10 * E), "arithmetic", "quaternion arithmetic"); Quaternion z; CK(z == Quaternion(0, 0, 0, 0), "zero", "default quaternion"); z.setToIdentity(); CK(z == Quaternion::identity() && z.w == 1, "identity", "identity"); z.setAllValues(q.x, q.y, q.z, q.w); CK(z == q, "set", "setAllValues"); z.setToZero(); CK(z == Quaternion(0, 0, 0, 0) && !z.isValid(), "zero", "setToZero");
    { Matrix3x3 w = (q * decimal(1.5)).getMatrix(); CK(diff(lm(w), M) < 20 * E, "matrix", "matrix of a multiple of the quaternion differs"); }
}
static void euler(Run& r) { int n = r.thorough ? 48 : 24; int i = r.choose(n + 1), j = r.choose(n + 1), k = r.choose(n + 1); decimal x = decimal((i - n / 2) * 2 * M_PI / n), y = decimal((j - n / 2) * 2 * M_PI / n), z = decimal((k - n / 2) * 2 * M_PI / n); Quaternion q = Quaternion::fromEulerAngles(x, y, z), q2 = Quaternion::fromEulerAngles(Vector3(x, y, z)); MC_LOG(r, "angles %g %g %g: %s", (double)x, (double)y, (double)z, st(l4(q)).c_str()); seen(r, {x, y, z}); CK(q == q2, "overload", "overloads differ"); L4 w = rotation({0, 0, 1}, z) * rotation({0, 1, 0}, y) * rotation({1, 0, 0}, x); CK(q.isValid() && near(len(l4(q)), 1, 8 * E), "valid", "not a unit quaternion"); CK(between(w, l4(q)) < 12 * E, "euler", "%s is %Lg rad away from the rotation about x, then y, then z", st(l4(q)).c_str(), between(w, l4(q))); }
static Quaternion some(Run& r, int na, int nt) { static const int AX[] = {14, 16, 22, 26, 13, 24, 27, 17, 10, 32}; static const int TN[] = {0, 5, 11, 9, 3, 6, 12, 14, 17, 1}; L3 a = axisOf(AX[r.choose(na)]); ld t = AN[TN[r.choose(nt)]]; return q4(rotation(a, t)); }
static void products(Run& r) { int n = r.thorough ? 10 : 6; Quaternion p = some(r, n, n), q = some(r, n, n); L4 P = l4(p), Q = l4(q); MC_LOG(r, "p = %s, q = %s", st(P).c_str(), st(Q).c_str()); Quaternion pq = p * q; L4 w = P * Q; r.transition(); mc::Hash h; h.d(pq.x); h.d(pq.y); h.d(pq.z); h.d(pq.w); r.state(h.h); CK(between(w, l4(pq)) < 12 * E && near(len(l4(pq)), 1, 12 * E), "product", "p * q = %s, not %s", st(l4(pq)).c_str(), st(w).c_str()); for (auto& x : PT) CK(near(l3(pq * v3(x)), l3(p * (q * v3(x))), 60 * E * 6), "compose", "(p q) x != p (q x)"); CK(diff(lm(pq.getMatrix()), mul(lm(p.getMatrix()), lm(q.getMatrix()))) < 30 * E, "compose", "matrix of the product is not the product of the matrices"); Quaternion i = (p * q).getInverse(), j = q.getInverse() * p.getInverse(); CK(between(l4(i), l4(j)) < 12 * E, "inverse", "(p q)^-1 != q^-1 p^-1"); for (Quaternion g : {pq, pq * pq.getInverse(), pq.getUnit(), pq * q.getInverse() * p.getInverse()}) { decimal ag; Vector3 ax; g.getRotationAngleAxis(ag, ax); ld wa = 2 * acosl(std::max(-1.0L, std::min(1.0L, (ld)g.w / len(l4(g))))); CK(near(ag, wa, 8 * sqrtl(E)) && ax.isFinite(), "angle", "the angle of rotation %s is %g, should be %Lg", st(l4(g)).c_str(), (double)ag, wa); } CK(near(p.dot(q), P.x * Q.x + P.y * Q.y + P.z * Q.z + P.w * Q.w, 6 * E), "dot", "dot");
    bool eq = p.x == q.x && p.y == q.y && p.z == q.z && p.w == q.w; CK((p == q) == eq, "equality", "equality"); }
static void slerp(Run& r) { int n = r.thorough ? 10 : 7; Quaternion p = some(r, n, n), q = some(r, n, n); if (r.flip()) q = q * decimal(-1); int k = r.choose(9); decimal t = k == 8 ? decimal(1e-3) : decimal(k / 7.0); Quaternion s = Quaternion::slerp(p, q, t); L4 P = l4(p), Q = l4(q), S = l4(s); ld th = between(P, Q); MC_LOG(r, "p = %s, q = %s, t = %g: %s", st(P).c_str(), st(Q).c_str(), (double)t, st(S).c_str()); r.transition(); mc::Hash h; h.d(s.x); h.d(s.y); h.d(s.z); h.d(s.w); r.state(h.h); ld tol = 20 * sqrtl(E) / 8 + 4e-6L;
    CK(s.isFinite() && near(len(S), 1, 4e-6L + 20 * E), "unit", "result has length %.9Lg", len(S)); ld a = between(P, S), b = between(S, Q); CK(near(a, t * th, tol) && near(b, (1 - t) * th, tol), "arc", "result is %Lg from the first and %Lg from the second rotation, which are %Lg apart", a, b, th); if (k == 0) CK(between(P, S) < 20 * E, "ends", "slerp(0)"); if (k == 7) CK(between(Q, S) < 20 * E, "ends", "slerp(1)"); }
static void transforms(Run& r) { int n = r.thorough ? 8 : 5; static const Vector3 PS[] = {Vector3(0, 0, 0), Vector3(1, -2, 3), Vector3(decimal(.01), 0, decimal(-.02)), Vector3(100, 50, -70)}; Quaternion p = some(r, n, n), q = some(r, n, n); Vector3 a = PS[r.choose(4)], b = PS[r.choose(4)]; Transform A(a, p), B(b, q); MC_LOG(r, "A = %s %s, B = %s %s", str(a).c_str(), st(l4(p)).c_str(), str(b).c_str(), st(l4(q)).c_str()); r.transition(); Transform C = A * B; mc::Hash h; hashT(h, C); r.state(h.h); ld m = 10 + a.length() + b.length();
    for (auto& x : PT) { L3 y = rot(l4(p), rot(l4(q), x) + l3(b)) + l3(a); CK(near(l3(C * v3(x)), y, 40 * E * m), "compose", "(A B) x = %s, not %s", st(l3(C * v3(x))).c_str(), st(y).c_str()); CK(near(l3(A * (B * v3(x))), y, 40 * E * m), "apply", "A (B x) = %s, not %s", st(l3(A * (B * v3(x)))).c_str(), st(y).c_str()); CK(near(l3(C.getInverse() * (C * v3(x))), x, 80 * E * m), "inverse", "inverse does not undo the transform"); }
    Transform I = A * A.getInverse(), J = A.getInverse() * A; for (auto& w : {I, J}) CK(near(l3(w.getPosition()), {0, 0, 0}, 40 * E * m) && between(l4(w.getOrientation()), {0, 0, 0, 1}) < 20 * E, "inverse", "A * inverse is %s %s", str(w.getPosition()).c_str(), st(l4(w.getOrientation())).c_str());
    decimal g[16], g2[16]; A.getOpenGLMatrix(g); M3 M = lm(p.getMatrix()); for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) CK(near(g[j * 4 + i], M.m[i][j], 10 * E), "opengl", "entry %d,%d of the OpenGL matrix", i, j); CK(g[12 + i] == a[i] && g[i * 4 + 3] == 0, "opengl", "translation of the OpenGL matrix"); } CK(g[15] == 1, "opengl", "last entry"); for (int i = 0; i < 16; i++) g2[i] = g[i]; Transform G; G.setFromOpenGL(g2); CK(G.getPosition() == a && between(l4(G.getOrientation()), l4(p)) < 60 * E, "opengl", "round trip through OpenGL: %s", st(l4(G.getOrientation())).c_str());
    Transform K(a, p.getMatrix()); CK(K.getPosition() == a && between(l4(K.getOrientation()), l4(p)) < 60 * E, "from-matrix", "transform from a matrix"); CK((A == B) == (a == b && p == q) && (A != B) == !(a == b && p == q), "equality", "equality"); CK(A.isValid() && C.isValid(), "valid", "not valid"); Transform id; CK(id == Transform::identity() && id.getPosition() == Vector3(0, 0, 0) && id.getOrientation() == Quaternion::identity(), "identity", "identity"); Transform e = A; e.setToIdentity(); CK(e == id, "identity", "setToIdentity"); e.setPosition(b); e.setOrientation(q); CK(e == B, "set", "setters");
    for (decimal t : {decimal(0), decimal(.25), decimal(.5), decimal(1)}) { Transform w = Transform::interpolateTransforms(A, B, t); CK(near(l3(w.getPosition()), l3(a) * (1 - t) + l3(b) * t, 10 * E * m), "interpolate", "interpolated position %s", str(w.getPosition()).c_str()); ld th = between(l4(p), l4(q)); CK(near(between(l4(p), l4(w.getOrientation())), th * t, 20 * sqrtl(E) / 8 + 4e-6L), "interpolate", "interpolated orientation"); } }
// ---- geometric helpers
static L3 lattice(int k, int n) { return {(ld)(k % n), (ld)(k / n % n), (ld)(k / n / n)}; }
static L3 closestSeg(L3 a, L3 b, L3 p) { L3 d = b - a; ld l = dot(d, d), t = l > 0 ? dot(p - a, d) / l : 0; t = std::min(std::max(t, 0.0L), 1.0L); return a + d * t; }
static ld segDist(L3 a, L3 b, L3 c, L3 d) { ld best = std::min(std::min(len(a - closestSeg(c, d, a)), len(b - closestSeg(c, d, b))), std::min(len(c - closestSeg(a, b, c)), len(d - closestSeg(a, b, d)))); L3 u = b - a, v = d - c, w = a - c; ld A = dot(u, u), B = dot(u, v), C = dot(v, v), D = dot(u, w), F = dot(v, w), den = A * C - B * B; if (den > 1e-16L * A * C && A > 0 && C > 0) { ld s = (B * F - C * D) / den, t = (A * F - B * D) / den; if (s >= 0 && s <= 1 && t >= 0 && t <= 1) best = std::min(best, len(a + u * s - c - v * t)); } return best; }
static L3 place(Run& r, L3 v, decimal s) { return v * s; }
static void pointSegment(Run& r) { decimal s = SC[r.choose(3)]; int n = 27; L3 a = lattice(r.choose(n), 3), b = lattice(r.choose(n), 3), p = lattice(r.choose(n), 3); int k = r.choose(3); if (k == 1) p = p * 3 - L3{2, 3, 1}; if (k == 2) { b = a + (b - a) * 1e-4L; } Vector3 A = v3(a * s), B = v3(b * s), P = v3(p * s); L3 c = l3(computeClosestPointOnSegment(A, B, P)); MC_LOG(r, "segment %s %s, point %s: %s", str(A).c_str(), str(B).c_str(), str(P).c_str(), st(c).c_str()); seen(r, c); ld d = len(l3(P) - closestSeg(l3(A), l3(B), l3(P))), sc = 1e-30L + len(l3(A)) + len(l3(B)) + len(l3(P)); ld tol = 100 * E * sc + sqrtl(E); if (len(l3(B) - l3(A)) > 1.01L * sqrtl(E)) tol = 100 * E * sc; CK(len(c - closestSeg(l3(A), l3(B), c)) <= 40 * E * sc, "on-segment", "%s is not on the segment", st(c).c_str()); CK(near(len(l3(P) - c), d, tol), "closest", "%s is %Lg away, the closest point is %Lg away", st(c).c_str(), len(l3(P) - c), d);
    ld L = len(l3(B) - l3(A)); if (L > 1e-3L * s) { ld w = len(cross(l3(P) - l3(A), l3(B) - l3(A))) / L, g = computePointToLineDistance(A, B, P); CK(near(g, w, 60 * E * sc * (1 + sc / L)), "line-distance", "distance to the line is %Lg, not %Lg", g, w); } else if (L == 0) CK(near(computePointToLineDistance(A, B, P), len(l3(P) - l3(A)), 40 * E * sc), "line-distance", "distance to a line of two equal points"); }
static void twoSegments(Run& r) { decimal s = SC[r.choose(3)]; int kind = r.choose(4); L3 a, b, c, d; if (kind < 2) { static const int SUB[] = {0, 26, 13, 1, 9, 5, 21, 12, 8, 24}; int n = r.thorough ? 27 : 10; auto pk = [&] { int k = r.choose(n); return lattice(n == 27 ? k : SUB[k], 3); }; a = pk(); b = pk(); c = pk(); d = pk(); if (kind == 1) { c = c + L3{.25L, .5L, 1}; d = d + L3{.25L, .5L, 1}; } }
    else { // nearly parallel segments, shifted along and off the line
        static const ld TL[] = {0, 1e-7L, 1e-5L, 1e-4L, 1e-3L, 1e-2L, .1L}; static const L3 DR[] = {{1, 0, 0}, {1, 2, 3}, {0, 1, -1}}; L3 u = DR[r.choose(3)]; u = u * (1 / len(u)); L3 v = cross(u, fabsl(u.x) < .5L ? L3{1, 0, 0} : L3{0, 0, 1}); v = v * (1 / len(v)); L3 w = cross(u, v); ld t = TL[r.choose(7)], t2 = TL[r.choose(7)]; static const ld SH[] = {-2.5L, -1, -.5L, 0, .5L, 1.25L, 3}; ld sh = SH[r.choose(7)], l2 = r.choose(2) ? 2 : .5L, off = r.choose(3) * .5L; a = {0, 0, 0}; b = u; c = u * sh + w * off; d = c + (u + v * t + w * t2) * (kind == 3 ? -l2 : l2); }
    Vector3 A = v3(a * s), B = v3(b * s), C = v3(c * s), D = v3(d * s), p, q; computeClosestPointBetweenTwoSegments(A, B, C, D, p, q); MC_LOG(r, "segments %s %s and %s %s: %s %s", str(A).c_str(), str(B).c_str(), str(C).c_str(), str(D).c_str(), str(p).c_str(), str(q).c_str()); seen(r, l3(p) + l3(q) * 3); ld sc = len(l3(A)) + len(l3(B)) + len(l3(C)) + len(l3(D)) + 1e-30L, best = segDist(l3(A), l3(B), l3(C), l3(D)), got = len(l3(p) - l3(q));
    CK(finite(p) && finite(q) && len(l3(p) - closestSeg(l3(A), l3(B), l3(p))) <= 40 * E * sc && len(l3(q) - closestSeg(l3(C), l3(D), l3(q))) <= 40 * E * sc, "on-segments", "the points are not on the segments"); CK(got >= best - 100 * E * sc && got <= best + 4 * sqrtl(E) * sc, "closest", "points are %Lg apart, the segments %Lg", got, best); }
static void barycentric(Run& r) { decimal s = SC[r.choose(3)]; L3 a = lattice(r.choose(8), 2), b = lattice(r.choose(27), 3), c = lattice(r.choose(27), 3); L3 nrm = cross(b - a, c - a); if (len(nrm) < 1e-6L) r.prune(); int i = r.choose(9), j = r.choose(9); ld u = (i - 2) / 4.0L, v = (j - 2) / 4.0L, w = 1 - u - v; L3 p = a * u + b * v + c * w; decimal U, V, W; Vector3 A = v3(a * s), B = v3(b * s), C = v3(c * s), P = v3(p * s); computeBarycentricCoordinatesInTriangle(A, B, C, P, U, V, W); MC_LOG(r, "triangle %s %s %s, point %s: %g %g %g (expected %Lg %Lg %Lg)", str(A).c_str(), str(B).c_str(), str(C).c_str(), str(P).c_str(), (double)U, (double)V, (double)W, u, v, w); seen(r, {U, V, W}); ld x = len(b - a) * len(b - a) * len(c - a) * len(c - a) / dot(nrm, nrm); CK(near(U, u, 400 * E * x) && near(V, v, 400 * E * x) && near(W, w, 400 * E * x), "barycentric", "coordinates %.8g %.8g %.8g instead of %Lg %Lg %Lg", (double)U, (double)V, (double)W, u, v, w); }
static L3 planeNormal(Run& r) { static const L3 N[] = {{1, 0, 0}, {0, -1, 0}, {0, 0, 1}, {1, 1, 0}, {-1, 2, 3}, {1e-3L, 1, 0}, {1, -1, 1}}; L3 n = N[r.choose(7)]; return n * (1 / len(n)); }
static void planes(Run& r) { decimal s = SC[r.choose(3)]; L3 n = planeNormal(r), o = lattice(r.choose(27), 3), p = lattice(r.choose(27), 3), q = lattice(r.choose(27), 3); Vector3 N = v3(n), O = v3(o * s), P = v3(p * s), Q = v3(q * s); ld sc = (len(o) + len(p) + len(q)) * s + 1e-30L; MC_LOG(r, "plane %s through %s, points %s %s", str(N).c_str(), str(O).c_str(), str(P).c_str(), str(Q).c_str()); ld dp = dot(l3(N), l3(P) - l3(O)); CK(near(computePointToPlaneDistance(P, N, O), dp, 20 * E * sc), "plane-distance", "distance %g, not %Lg", (double)computePointToPlaneDistance(P, N, O), dp); L3 x = l3(projectPointOntoPlane(P, N, O)); seen(r, x); CK(near(x, l3(P) - l3(N) * dp, 30 * E * sc), "project", "projection %s is wrong", st(x).c_str());
    decimal t = computePlaneSegmentIntersection(P, Q, N.dot(O), N); ld den = dot(l3(N), l3(Q) - l3(P)); if (fabsl(den) > 1.01e-4L) { ld w = (dot(l3(N), l3(O)) - dot(l3(N), l3(P))) / den; CK(near(t, w, 60 * E * (1 + sc / fabsl(den)) * (1 + fabsl(w))), "plane-segment", "parameter %g, not %Lg", (double)t, w); } else if (fabsl(den) < 1e-9L) CK(t < 0 || t > 1, "plane-segment", "a segment parallel to the plane intersects it at %g", (double)t); }
// clip a segment against up to four planes whose normals have any length
static void clipSegment(Run& r) { decimal s = SC[r.choose(3)], nl = SC[r.choose(3)]; if (s == 100 && nl != 1 && !r.thorough) r.prune(); int np = 1 + r.choose(3); static const L3 PTS[] = {{0, 0, 0}, {2, 0, 0}, {1, 1, 1}, {-1, 2, .5L}, {1, 0, 3}, {.5L, .25L, -1}}; L3 a = PTS[r.choose(6)], b = PTS[r.choose(6)]; DefaultAllocator al; Array<Vector3> pp(al), pn(al); Vector3 A = v3(a * s), B = v3(b * s); MC_LOG(r, "segment %s %s", str(A).c_str(), str(B).c_str()); ld t0 = 0, t1 = 1, tol = 400 * E; static const L3 OR[] = {{0, 0, 0}, {.75L, .125L, .25L}, {1, 1, 1}};
    for (int i = 0; i < np; i++) { L3 n = planeNormal(r), o = OR[np > 2 && !r.thorough ? i : r.choose(3)]; pn.add(v3(n * nl)); pp.add(v3(o * s)); L3 N = l3(pn[i]), O = l3(pp[i]); ld da = dot(N, l3(A) - O) / (nl * s), db = dot(N, l3(B) - O) / (nl * s); MC_LOG(r, "plane %s through %s", str(pn[i]).c_str(), str(pp[i]).c_str()); if (fabsl(da) < 1e-4L && fabsl(db) < 1e-4L) r.prune(); /* in the plane up to rounding */ if (da < 0 && db < 0) t1 = -1; else if (da < 0) t0 = std::max(t0, da / (da - db)); else if (db < 0) t1 = std::min(t1, da / (da - db)); if (fabsl(da - db) > 0) tol = std::max(tol, 400 * E / fabsl(da - db)); }
    Array<Vector3> c = clipSegmentWithPlanes(A, B, pp, pn, al); r.transition(); mc::Hash h; h.u(c.size()); for (uint32 i = 0; i < c.size(); i++) hashV(h, c[i]); r.state(h.h); CK(c.size() == 0 || c.size() == 2, "size", "%u points", (unsigned)c.size()); ld L = len(b - a) * s, ab = tol * (L + 4 * (ld)s);
    if (t1 < t0 - tol) { CK(c.size() == 0, "outside", "a segment that is cut away completely leaves %s %s", str(c[0]).c_str(), str(c[1]).c_str()); } else if (t1 > t0 + tol) { CK(c.size() == 2, "lost", "the part from %Lg to %Lg is lost", t0, t1); CK(near(l3(c[0]), l3(A) + (l3(B) - l3(A)) * t0, ab) && near(l3(c[1]), l3(A) + (l3(B) - l3(A)) * t1, ab), "clip", "clipped to %s %s, should be the part from %Lg to %Lg: %s %s", str(c[0]).c_str(), str(c[1]).c_str(), t0, t1, st(l3(A) + (l3(B) - l3(A)) * t0).c_str(), st(l3(A) + (l3(B) - l3(A)) * t1).c_str()); } }
static void clipPolygon(Run& r) { decimal s = SC[r.choose(3)], nl = SC[r.choose(3)]; static const std::vector<L3> POLY[] = {{{0, 0, 0}, {1, 0, 0}, {0, 1, 0}}, {{0, 0, 0}, {1, 0, 0}, {1, 1, 0}, {0, 1, 0}}, {{1, 0, 0}, {.5L, .8L, 0}, {-.5L, .8L, 0}, {-1, 0, 0}, {-.5L, -.8L, 0}, {.5L, -.8L, 0}}, {{0, 0, 0}, {2, 1, 1}, {1, 3, 2}}, {{0, 0, 0}, {1, 0, .5L}}}; int k = r.choose(4), rt = r.choose((int)POLY[k].size()); bool rev = r.flip(); std::vector<L3> P = POLY[k]; std::rotate(P.begin(), P.begin() + rt, P.end()); if (rev) std::reverse(P.begin(), P.end()); L3 n = planeNormal(r); static const L3 OR[] = {{0, 0, 0}, {.75L, .125L, .25L}, {1, 1, 1}, {.25L, .5L, 0}, {-.3L, .1L, 0}, {.1L, -3, 0}}; L3 o = OR[r.choose(6)]; if (r.flip()) n = n * -1;
    DefaultAllocator al; Array<Vector3> in(al), out(al); for (auto& p : P) { in.add(v3(p * s)); MC_LOG(r, "vertex %s", str(in[in.size() - 1]).c_str()); } Vector3 N = v3(n * nl), O = v3(o * s); MC_LOG(r, "plane %s through %s", str(N).c_str(), str(O).c_str()); clipPolygonWithPlane(in, O, N, out); r.transition(); mc::Hash h; for (uint32 i = 0; i < out.size(); i++) hashV(h, out[i]); r.state(h.h); ld S = s; L3 U = l3(N) * (1 / len(l3(N)));
    std::vector<L3> want; ld tol = 1e3L * E * S; bool touch = false; for (size_t i = 0; i < P.size(); i++) { L3 a = l3(in[i]), b = l3(in[(i + 1) % P.size()]); ld da = dot(U, a - l3(O)), db = dot(U, b - l3(O)); if (fabsl(da) < 1e-5L * S) touch = true; if (da >= 0) want.push_back(a); if ((da >= 0) != (db >= 0)) { want.push_back(a + (b - a) * (da / (da - db))); tol = std::max(tol, 1e3L * E * S * S / fabsl(da - db)); } }
    auto area = [](const std::vector<L3>& v) { L3 q{0, 0, 0}; for (size_t i = 0; i < v.size(); i++) q = q + cross(v[i], v[(i + 1) % v.size()]); return q; }; std::vector<L3> got; for (uint32 i = 0; i < out.size(); i++) got.push_back(l3(out[i])); for (auto& g : got) { CK(dot(U, g - l3(O)) >= -tol, "behind", "%s is %Lg behind the plane", st(g).c_str(), -dot(U, g - l3(O))); ld best = 1e30L; for (size_t i = 0; i < P.size(); i++) best = std::min(best, len(g - closestSeg(l3(in[i]), l3(in[(i + 1) % P.size()]), g))); CK(best <= tol, "boundary", "%s is not on the boundary of the polygon", st(g).c_str()); } if (!touch) for (auto& w : want) { ld best = 1e30L; for (auto& g : got) best = std::min(best, len(g - w)); CK(best <= tol, "lost", "corner %s of the clipped polygon is missing", st(w).c_str()); } CK(len(area(got) - area(want)) <= tol * S * 20, "area", "clipped polygon has another area or orientation: %s instead of %s", st(area(got)).c_str(), st(area(want)).c_str()); }
static void integers(Run& r) { int i = r.choose(64), d = r.choose(5) - 2; uint64 n = (uint64(1) << i) + d; bool pow = n && !(n & (n - 1)); MC_LOG(r, "n = %llu", (unsigned long long)n); seen(r, {(ld)n, 0, 0}); CK(isPowerOfTwo(n) == pow, "power", "isPowerOfTwo"); if (n > 0 && n <= (uint64(1) << 63)) { uint64 q = nextPowerOfTwo64Bits(n); CK(isPowerOfTwo(q) && q >= n && (q == 1 || q / 2 < n), "next-power", "next power of two is %llu", (unsigned long long)q); }
    int a = r.choose(24), b = r.choose(24); static std::map<uint64, std::pair<uint32, uint32>> img; uint32 x = a < 16 ? a : 0xFFFFFFFFu - (a - 16) * 3, y = b < 16 ? b : 0xFFFFFFFFu - (b - 16) * 3; if (x < y) std::swap(x, y); uint64 k = pairNumbers(x, y); auto it = img.find(k); if (it != img.end()) CK(it->second == std::make_pair(x, y), "pairing", "(%u,%u) and (%u,%u) have the same number", x, y, it->second.first, it->second.second); img[k] = {x, y};
    decimal u = VA[a % 7], v = VA[b % 7], w = VA[(a + b + i) % 7]; CK(min3(u, v, w) == std::min({u, v, w}) && max3(u, v, w) == std::max({u, v, w}), "minmax3", "min3/max3"); CK(sameSign(u, v) == !((u < 0 && v > 0) || (u > 0 && v < 0)), "sign", "sameSign(%g,%g)", (double)u, (double)v); if (u <= v) { CK(clamp(w, u, v) == (w < u ? u : w > v ? v : w), "clamp", "clamp(%g,%g,%g)", (double)w, (double)u, (double)v); CK(clamp(a - 12, -5, 7) == std::min(std::max(a - 12, -5), 7), "clamp", "clamp of integers"); } CK(approxEqual(u, v, decimal(.25)) == (std::abs(u - v) < decimal(.25)), "approx", "approxEqual"); }
int main(int argc, char** argv) { std::vector<mc::Scenario> v; auto add = [&](const char* n, void (*f)(Run&), const char* t) { v.push_back({n, [f](Run& r) { f(r); }, t, 1, 60}); };
    add("vector-pairs", vectorPairs, "all pairs of 3D vectors with 6 (thorough 7) values per component"); add("vectors", vectorSingle, "all 3D vectors with 13 values per component x 3 scales"); add("vectors-2d", vectorTwo, "all pairs of 2D vectors with 13 values per component"); add("matrices", matrices, "all 3x3 matrices over 4 (thorough 5) values"); add("matrices-2x2", matricesTwo, "all 2x2 matrices over 8 values"); add("rotations", rotations, "33 axes x 18 angles (with half and full turns and neighbours) x sign, and rounding noise in every matrix entry"); add("euler", euler, "all triples of Euler angles in steps of 15 (thorough 7.5) degrees"); add("products", products, "all pairs of 36 (thorough 100) rotations"); add("slerp", slerp, "all pairs of 49 (thorough 100) rotations x sign x 9 parameters"); add("transforms", transforms, "all pairs of transforms over 25 (thorough 64) rotations x 4 positions");
    add("point-segment", pointSegment, "all segments and points of a 3x3x3 lattice, far points, short segments, 3 scales"); add("two-segments", twoSegments, "all pairs of segments over 10 (thorough 27) lattice points, shifted pairs, nearly parallel pairs, 3 scales"); add("barycentric", barycentric, "all triangles of the lattice x 81 points inside and outside x 3 scales"); add("planes", planes, "7 normals x lattice points x lattice segments x 3 scales"); add("clip-segment", clipSegment, "segments x up to 3 planes x 3 scales x 3 lengths of the normals"); add("clip-polygon", clipPolygon, "polygons in every rotation and both orientations x planes x 3 scales x 3 lengths of the normals"); add("integers", integers, "powers of two and neighbours, pairs of integers, scalars");
    return mc::main(argc, argv, propertyId("C28"), v, "Tolerances are multiples of the rounding unit of the build times the size (and condition) of the input; conversions through acos and the linear branch of slerp are allowed the square root of the unit or 4e-6."); }
