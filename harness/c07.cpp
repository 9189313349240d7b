// DynamicAABBTree against a plain list of fat AABBs (C07).
#include "rp.h"
#include "strictalloc.h"
#include <reactphysics3d/collision/broadphase/DynamicAABBTree.h>
#include <reactphysics3d/collision/shapes/AABB.h>
using rp3d::AABB; using rp3d::DynamicAABBTree; using rp3d::Ray; using rp3d::int32; using rp3d::uint32;
typedef rp3d::Array<int32> AI;
static AABB bx(double x, double y, double z, double s, double sy = -1) { return AABB(Vector3(x, y, z), Vector3(x + s, y + (sy < 0 ? s : sy), z + s)); }
static bool has(const AABB& a, const AABB& b) { for (int i = 0; i < 3; i++) if (b.getMin()[i] < a.getMin()[i] || b.getMax()[i] > a.getMax()[i]) return false; return true; }
static bool ovl(const AABB& a, const AABB& b) { for (int i = 0; i < 3; i++) if (b.getMin()[i] > a.getMax()[i] || a.getMin()[i] > b.getMax()[i]) return false; return true; }
// closed interval of parameters in [0,maxF] for which the point is in the box grown by eps (negative = shrunk)
static bool slab(const Ray& ray, const AABB& b, double eps, double maxF, double* entry = nullptr) {
    double t0 = 0, t1 = maxF; for (int i = 0; i < 3; i++) { double o = ray.point1[i], d = (double)ray.point2[i] - o, lo = b.getMin()[i] - eps, hi = b.getMax()[i] + eps;
        if (d == 0) { if (o < lo || o > hi) return false; continue; } double a = (lo - o) / d, c = (hi - o) / d; if (a > c) std::swap(a, c); t0 = std::max(t0, a); t1 = std::min(t1, c); }
    if (entry) *entry = t0; return t0 <= t1; }
struct Obj { int32 id; AABB box, fat; uint32 tag; };
static std::vector<AABB> boxes() { return { bx(0, 0, 0, 1), bx(0.03125, 0, 0, 1), bx(4, 0, 0, 1), bx(-3, 2, 1, 2), bx(0.5, 0.5, 0.5, 0.25), bx(-8, -8, -8, 16), bx(1, 0, 0, 1, 0) }; }
struct CB : rp3d::DynamicAABBTreeRaycastCallback { Run* r; DynamicAABBTree* t; std::vector<Obj>* o; const Ray* ray; int mode; std::map<int32, int> seen; double maxF, best = 1e9; bool stopped = false; std::string err;
    decimal raycastBroadPhaseShape(int32 id, const Ray& q) override {
        if (stopped) err = "visited after the callback asked to stop"; if (seen[id]++) err = "object visited twice in one ray cast";
        if (std::fabs(q.maxFraction - maxF) > 1e-6) err = "the ray handed to the callback has another maximum fraction"; if (!(q.point1 == ray->point1) || !(q.point2 == ray->point2)) err = "the ray handed to the callback is another ray";
        const Obj* f = nullptr; for (auto& x : *o) if (x.id == id) f = &x; if (!f) { err = "ray cast visits an object that is not in the tree"; return -1; }
        double e; if (!slab(*ray, f->fat, 0, maxF, &e)) return -1; best = std::min(best, e);
        if (mode == 0) return -1; if (mode == 1) return 2; if (mode == 2) { if (e <= 0) return -1; maxF = std::min(maxF, e); return (decimal)e; } stopped = true; return 0; } };
static void verify(Run& r, DynamicAABBTree& t, std::vector<Obj>& o, StrictAllocator& al, const char* what, int lvl) {
    for (auto& x : o) { const AABB& f = t.getFatAABB(x.id); MC_CHECK(r, f.getMin() == x.fat.getMin() && f.getMax() == x.fat.getMax(), "fat-changed", "%s: the fat AABB of object %u changed", what, x.tag);
        MC_CHECK(r, has(f, x.box), "fat-encloses", "%s: fat AABB of object %u does not enclose its AABB", what, x.tag); MC_CHECK(r, (uint32)t.getNodeDataInt(x.id) == x.tag, "data", "%s: data of object %u is %d", what, x.tag, t.getNodeDataInt(x.id)); }
    for (size_t i = 0; i < o.size(); i++) for (size_t j = i + 1; j < o.size(); j++) MC_CHECK(r, o[i].id != o[j].id, "id", "%s: two live objects share identifier %d", what, o[i].id);
    if (!o.empty()) for (auto& x : o) MC_CHECK(r, has(t.getRootAABB(), x.fat), "root", "%s: getRootAABB() does not enclose object %u", what, x.tag);
    std::vector<AABB> qs = {bx(0, 0, 0, 1), bx(-20, -20, -20, 40), bx(0.9, 0.1, 0.1, 0.5), bx(1.03125, 0, 0, 1), bx(4.5, -3, 0.5, 0.125), bx(100, 0, 0, 1), bx(-1, -1, -1, 0)};
    for (auto& q : qs) { AI out(al); t.reportAllShapesOverlappingWithAABB(q, out); std::map<int32, int> c; for (uint32 i = 0; i < out.size(); i++) c[out[i]]++; r.transition();
        for (auto& x : o) { int n = c.count(x.id) ? c[x.id] : 0; int e = ovl(q, x.fat) ? 1 : 0; c.erase(x.id); MC_CHECK(r, n == e, "overlap", "%s: object %u reported %d times for a box query, expected %d", what, x.tag, n, e); }
        MC_CHECK(r, c.empty(), "overlap", "%s: a box query reports an object that is not in the tree", what); }
    { AI test(al); for (auto& x : o) test.add(x.id); size_t a = test.size() / 3, b = test.size(); rp3d::Array<rp3d::Pair<int32, int32>> out(al); t.reportAllShapesOverlappingWithShapes(test, (uint32)a, b, out); r.transition();
        std::map<std::pair<int32, int32>, int> c; for (uint32 i = 0; i < out.size(); i++) c[{out[i].first, out[i].second}]++;
        for (size_t i = a; i < b; i++) for (auto& y : o) { if (o[i].id == y.id) { c.erase({y.id, y.id}); continue; } auto k = std::make_pair(o[i].id, y.id); int n = c.count(k) ? c[k] : 0, e = ovl(o[i].fat, y.fat); c.erase(k); MC_CHECK(r, n == e, "pairs", "%s: pair (%u,%u) reported %d times, expected %d", what, o[i].tag, y.tag, n, e); }
        MC_CHECK(r, c.empty(), "pairs", "%s: unexpected pair", what); }
    static const double R[][7] = {{-10, .5, .5, 10, .5, .5, 1}, {.5, 10, .5, .5, -10, .5, 1}, {0, 10, .5, 0, -10, .5, 1}, {1, 10, .5, 1, -10, .5, 1}, {.5, .5, -10, .5, .5, 10, 1}, {-10, 0, 0, 10, 0, 0, 1}, {-10, 1, .25, 10, 1, .25, 1}, {.625, .625, .625, .75, .75, .75, 1}, {-10, -10, -10, 10, 10, 10, .5}, {-10, -9, -11, 12, 10, 9, 1}, {20, 20, 20, 20, 20, 30, 1}, {.5, .5, 8, .5, .5, -8, 2}, {10, 3, 2, -10, 3, 2, 1}, {0, 0, 5, 0, 0, -5, 1}, {4.25, 4, .25, 4.25, -4, .25, .25}};
    for (auto& q : R) for (int mode = 0; mode < (lvl ? 4 : 2); mode++) { Ray ray(Vector3(q[0], q[1], q[2]), Vector3(q[3], q[4], q[5]), q[6]); CB cb; cb.r = &r; cb.t = &t; cb.o = &o; cb.ray = &ray; cb.mode = mode; cb.maxF = q[6]; t.raycast(ray, cb); r.transition();
        MC_CHECK(r, cb.err.empty(), "raycast", "%s: %s", what, cb.err.c_str()); double best = 1e9; bool any = false;
        for (auto& x : o) { double e; bool hit = slab(ray, x.fat, x.fat.getMin() == x.box.getMin() ? 0 : -1e-5, q[6], &e); if (hit) { any = true; best = std::min(best, e); }
            if (mode < 2) MC_CHECK(r, !hit || cb.seen.count(x.id), "raycast", "%s: ray (%g,%g,%g)-(%g,%g,%g) crosses object %u but does not visit it", what, q[0], q[1], q[2], q[3], q[4], q[5], x.tag); }
        if (mode == 2) MC_CHECK(r, !any || cb.best <= best + 1e-5, "raycast", "%s: clipping ray cast stops at %g, nearest object is at %g", what, cb.best, best);
        if (mode == 3) MC_CHECK(r, cb.stopped || !any, "raycast", "%s: ray cast with a stopping callback misses every object", what); }
    MC_CHECK(r, al.error.empty(), "allocator-misuse", "%s: %s", what, al.error.c_str());
    mc::Hash h; for (auto& x : o) { h.u(x.id); h.u(x.tag); hashV(h, x.fat.getMin()); hashV(h, x.fat.getMax()); } r.state(h.h);
}
static void scenario(Run& r, bool structure) {
    StrictAllocator al; auto BX = boxes(); { decimal infl = r.choose(2) ? decimal(0.08) : decimal(0); DynamicAABBTree t(al, infl); std::vector<Obj> o; uint32 tag = 1; int act = 0;
    auto add = [&](const AABB& b) { int32 id = t.addObject(b, tag); AABB f = t.getFatAABB(id); if (!has(f, b)) r.fail("fat-encloses", "fat AABB of a new object does not enclose it"); if (infl == 0 && !(f.getMin() == b.getMin() && f.getMax() == b.getMax())) r.fail("fat-encloses", "no inflation requested but the fat AABB differs");
        for (auto& x : o) if (x.id == id) r.fail("id", "identifier %d handed out twice", id); o.push_back({id, b, f, tag++}); act++; };
    auto rem = [&](size_t i) { t.removeObject(o[i].id); o.erase(o.begin() + i); act++; };
    auto upd = [&](size_t i, const AABB& b, bool force) { bool in = has(o[i].fat, b); bool re = t.updateObject(o[i].id, b, force); MC_CHECK(r, re == (force || !in), "reinsert", "updateObject(object %u)=%d although the new AABB is %s the fat one and force=%d", o[i].tag, re, in ? "inside" : "outside", force);
        AABB f = t.getFatAABB(o[i].id); if (!re) MC_CHECK(r, f.getMin() == o[i].fat.getMin() && f.getMax() == o[i].fat.getMax(), "fat-changed", "object %u not reinserted but its fat AABB changed", o[i].tag); MC_CHECK(r, has(f, b), "fat-encloses", "fat AABB does not enclose the updated AABB of object %u", o[i].tag); o[i].box = b; o[i].fat = f; act++; };
    static const int N0[] = {0, 1, 3, 7, 8, 9, 17}; int n0 = structure ? N0[r.choose(7)] : 0, pat = n0 ? r.choose(3) : 0;
    for (int i = 0; i < n0; i++) { if (pat == 0) add(bx(i * 0.75, 0, 0, 1)); else if (pat == 1) add(bx((i % 3) * 1.0, (i / 3) * 1.0, 0, 1)); else add(bx((i % 2 ? -1 : 1) * i * 2.0, i, -i, 0.5 + i)); }
    MC_LOG(r, "inflation %g, %d objects in pattern %d", (double)infl, n0, pat); verify(r, t, o, al, "start", 1);
    int depth = structure ? (r.thorough ? 4 : 3) : (r.thorough ? 7 : 6);
    for (int s = 0; s < depth; s++) { char w[40]; snprintf(w, 40, "after step %d", s); int k = structure ? r.choose(12) : r.choose(8); int n = (int)o.size();
        if (structure) switch (k) {
            case 0: case 1: add(BX[k * 2]); MC_LOG(r, "add"); break;
            case 2: case 3: case 4: { if (n == 0 || (k == 3 && n < 2) || (k == 4 && n < 3)) r.prune(); rem(k == 2 ? 0 : k == 3 ? n - 1 : n / 2); MC_LOG(r, "remove"); break; }
            case 5: case 6: case 7: { if (!n || (k == 6 && n < 2)) r.prune(); upd(k == 6 ? n - 1 : 0, BX[k == 7 ? 5 : 2], false); MC_LOG(r, "update"); break; }
            case 8: { if (!n) r.prune(); auto b = o[n / 2].box; upd(n / 2, AABB(b.getMin() + Vector3(decimal(0.03125), 0, 0), b.getMax() + Vector3(decimal(0.03125), 0, 0)), false); MC_LOG(r, "small move"); break; }
            case 9: { if (!n) r.prune(); upd(n / 2, o[n / 2].box, true); MC_LOG(r, "forced update"); break; }
            case 10: { if (!n) r.prune(); while (!o.empty()) rem(o.size() - 1); MC_LOG(r, "remove all"); break; }
            case 11: { if (s) r.prune(); t.reset(); o.clear(); MC_LOG(r, "reset"); break; } }
        else { int cnt = (int)o.size(); switch (k) { case 0: case 1: case 2: case 3: add(BX[k == 3 ? 6 : k]); MC_LOG(r, "add box %d", k); break; case 4: if (!cnt) r.prune(); rem(0); MC_LOG(r, "remove oldest"); break; case 5: if (cnt < 2) r.prune(); rem(cnt - 1); MC_LOG(r, "remove newest"); break;
            case 6: if (!cnt) r.prune(); upd(0, BX[3], false); MC_LOG(r, "update oldest"); break; case 7: if (!cnt) r.prune(); upd(cnt - 1, BX[1], false); MC_LOG(r, "update newest"); break; } }
        r.transition(); verify(r, t, o, al, w, 1); }
    if (structure) { int order = r.choose(2); while (!o.empty()) { rem(order ? o.size() - 1 : 0); if (o.size() == 4) verify(r, t, o, al, "while emptying", 0); } AI out(al); t.reportAllShapesOverlappingWithAABB(BX[5], out); MC_CHECK(r, out.size() == 0, "overlap", "empty tree reports an object"); for (int i = 0; i < 5; i++) add(BX[i]); verify(r, t, o, al, "refilled", 1); } }
    MC_CHECK(r, al.live == 0 && al.error.empty(), "leak", "%ld blocks leaked; %s", al.live, al.error.c_str());
}
int main(int c, char** v) {
    std::vector<mc::Scenario> s = {{"small", [](Run& r) { scenario(r, false); }, "every sequence of 6 (thorough 7) operations out of 8 (4 adds, 2 removes, 2 updates) from the empty tree, with and without fat-AABB inflation; after each step 7 box queries, all pair queries and 15 rays x 4 callback behaviours"},
        {"large", [](Run& r) { scenario(r, true); }, "every sequence of 3 (thorough 4) operations out of 12 from trees of 0,1,3,7,8,9,17 objects in 3 layouts (array growth at 8 and 16 leaves, free-list reuse), then emptied in two orders and refilled"}};
    return mc::main(c, v, "C07", s, "rays touching a box only at its surface are required to visit it only when no inflation is used (exact coordinates)");
}
