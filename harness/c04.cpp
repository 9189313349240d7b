// World, body and collider ray casts against each other and against brute-force geometry, after every
// history of adding, moving, removing, filtering, resizing and (de)activating (C04).
#include "wm.h"
#include "cat.h"
#include "crowd.h"
static const char* TN[] = {"static", "kinematic", "dynamic"};
static BodyType TY(int k) { return k == 0 ? BodyType::STATIC : k == 1 ? BodyType::KINEMATIC : BodyType::DYNAMIC; }
struct Seg { Vector3 a, b; decimal mf; };
static const std::vector<Seg>& segments() { static std::vector<Seg> q; if (!q.empty()) return q; auto add = [&](double ax, double ay, double az, double bx, double by, double bz, double mf = 1) { q.push_back({Vector3(ax, ay, az), Vector3(bx, by, bz), (decimal)mf}); };
    for (double x : {0.03, 0.8, 1.27, 1.9, 6.0}) { add(x, 5, 0.11, x, -5, 0.11); add(x, -4, 0.07, x, 4, 0.07); }                  // down and up
    for (double y : {0.02, 0.31, 3.1}) { add(-9, y, 0.05, 9, y, 0.05); add(9, y, -0.06, -9, y, -0.06); }                            // along the row of bodies, both ways
    add(-9, 0.1, 0.05, 9, 0.1, 0.05, 0.52); add(-9, 0.1, 0.05, 9, 0.1, 0.05, 0.3); add(9, .1, .05, -9, .1, .05, 0.55);               // clipped
    add(0.8, 0.1, 7, 0.8, 0.1, -7); add(1.9, 0.1, -7, 1.9, 0.1, 7); add(6, 0.1, 3, 6, 0.1, -3);                                      // across
    add(-5, -5, -5, 5, 5, 5); add(5, 5, 5, -5, -5, -5); add(-4, 3, 1, 5.6, -2.2, -1); add(8, 2.2, 0.6, -2, -2, -0.6); add(-3, 2, -4, 6, -2, 4, 0.8); // oblique
    add(-9, 20, 0, 9, 20, 0); add(20, 5, 0, 20, -5, 0);                                                                             // past everything
    add(-1000, 0.1, 0.03, 3, 0.1, 0.03);                                                                                           // long
    add(3, 0.1, 0.03, 4, 0.1, 0.03);                                                                                               // between the bodies
    return q; }
static std::string segName(const Seg& s) { char b[160]; snprintf(b, 160, "segment %s -> %s maxFraction %g", str(s.a).c_str(), str(s.b).c_str(), (double)s.mf); return b; }
struct Hit { Collider* c; void* body; Vector3 p, n; decimal f; int tri; };
struct RC : rp3d::RaycastCallback { int policy; std::vector<Hit> h; decimal ret = 0; decimal notifyRaycastHit(const rp3d::RaycastInfo& i) override { h.push_back({i.collider, i.body, i.worldPoint, i.worldNormal, i.hitFraction, i.triangleIndex});
    switch (policy) { case 0: return 1; case 1: return i.hitFraction; case 2: return -1; case 3: return 0; case 4: return (h.size() % 2) ? decimal(-1) : i.hitFraction; default: return i.hitFraction * decimal(0.5); } } };
static const char* PN[] = {"continue", "clip", "ignore", "terminate", "ignore/clip", "clip to half"};
static void casts(WM& m) { Run& r = m.r;
    // truth: Collider::raycast of each collider and geometry
    for (auto& sg : segments()) { rp3d::Ray ray(sg.a, sg.b, sg.mf); std::vector<Hit> want; std::vector<Col*> wc; geo::V ga(sg.a), gb(sg.b); double L = (gb - ga).len();
        for (size_t i = 0; i < m.B.size(); i++) if (m.B[i].exists) { decimal near = 2; Hit nh{};
            for (auto& c : m.B[i].cols) { rp3d::RaycastInfo info; bool hit = c.c->raycast(ray, info); r.transition();
                if (!m.B[i].active) { MC_CHECK(r, !hit, "inactive-hit", "b%zu is inactive but its collider is hit by %s", i, segName(sg).c_str()); continue; }
                geo::T t = geo::T(m.B[i].b->getTransform()) * geo::T(c.local); bool surely = false, maybe = false;
                double bestT = 2, lowT = 2; for (auto& part : m.sh->parts[c.shape]) { geo::Solid P = geo::place(part, t); if (part.kind == 4) { double tt = geo::raySolid(P, ga, gb);   // flat: plane and in-triangle test
                            geo::V n = P.fn(0); double den = n.dot(gb - ga); if (std::fabs(den) < 1e-6 * L) { maybe = true; continue; } tt = n.dot(P.v[0] - ga) / den; geo::V x = ga + (gb - ga) * tt; double d = geo::pointCore(P, x); if (d < 0.01) maybe = true; double in = 1e9; for (int e = 0; e < 3; e++) { geo::V ee = P.v[(e + 1) % 3] - P.v[e]; in = std::min(in, n.cross(ee.unit()).dot(x - P.v[e])); } if (den < 0 && in > 0.01 && tt > 0.002 && tt < (double)sg.mf - 0.002) { surely = true; bestT = std::min(bestT, tt); lowT = std::min(lowT, tt); } if (tt < -0.002 || tt > (double)sg.mf + 0.002) {} }
                        else { double in = geo::rayOff(P, -0.01, ga, gb, sg.mf), out = geo::rayOff(P, 0.01, ga, gb, sg.mf); bool startIn = geo::pointSolid(P, ga) < 0.01; if (in >= 0 && !startIn) { surely = true; bestT = std::min(bestT, in); } if (out >= 0 || startIn) { maybe = true; lowT = std::min(lowT, startIn ? 0.0 : out); } } }
                r.checked(2);
                if (surely && !hit) r.fail("collider-ray-missed", "%s crosses c%d but Collider::raycast misses", segName(sg).c_str(), c.id);
                if (!maybe && hit) r.fail("collider-ray-false", "%s does not cross c%d but Collider::raycast reports fraction %g", segName(sg).c_str(), c.id, (double)info.hitFraction);
                if (!hit) continue;
                MC_CHECK(r, info.collider == c.c && info.body == m.B[i].b, "ray-target", "Collider::raycast on c%d names another collider or body", c.id);
                MC_CHECK(r, info.hitFraction >= 0 && info.hitFraction <= sg.mf && geo::V(ga + (gb - ga) * (double)info.hitFraction - geo::V(info.worldPoint)).len() <= 2e-3 + 1e-6 * L && std::fabs((double)info.worldNormal.length() - 1) < 1e-3, "ray-data", "c%d: fraction %g point %s normal %s do not fit %s", c.id, (double)info.hitFraction, str(info.worldPoint).c_str(), str(info.worldNormal).c_str(), segName(sg).c_str());
                if (surely) MC_CHECK(r, (double)info.hitFraction < bestT + 1e-5 + 2e-3 / L && (double)info.hitFraction > std::min(lowT, bestT) - 1e-5 - 2e-3 / L, "ray-fraction", "c%d: fraction %g, surface at %g..%g (%s)", c.id, (double)info.hitFraction, lowT, bestT, segName(sg).c_str());
                Hit h{info.collider, info.body, info.worldPoint, info.worldNormal, info.hitFraction, info.triangleIndex}; if (info.hitFraction < near) { near = info.hitFraction; nh = h; }
                want.push_back(h); wc.push_back(&c); }
            rp3d::RaycastInfo bi; bool bh = m.B[i].b->raycast(ray, bi); MC_CHECK(r, bh == (near < 2), "body-ray", "Body::raycast of b%zu with %s: %d, colliders say %d", i, segName(sg).c_str(), bh, near < 2);
            if (bh) MC_CHECK(r, bi.hitFraction == near && bi.body == m.B[i].b && geo::V(geo::V(bi.worldPoint) - geo::V(nh.p)).len() < 1e-5 && [&] { for (auto& c : m.B[i].cols) if (c.c == bi.collider) return true; return false; }(), "body-ray-nearest", "Body::raycast of b%zu returns fraction %g, nearest collider hit is %g", i, (double)bi.hitFraction, (double)near); }
        for (unsigned short mask : {(unsigned short)0xffff, (unsigned short)1, (unsigned short)0x8000}) for (int pol = 0; pol < 6; pol++) { if (pol && mask != 0xffff && (pol & 1)) continue;
            std::vector<Hit> el; for (size_t k = 0; k < want.size(); k++) if ((wc[k]->cat & mask) && wc[k]->query) el.push_back(want[k]);
            RC cb; cb.policy = pol; m.w->raycast(ray, &cb, mask); r.transition(); std::set<Collider*> seen; double clip = sg.mf; double nearest = 2; for (auto& h : el) nearest = std::min(nearest, (double)h.f);
            for (size_t n = 0; n < cb.h.size(); n++) { auto& h = cb.h[n]; r.checked(); MC_CHECK(r, seen.insert(h.c).second, "ray-twice", "raycast (%s) notifies a collider twice for %s", PN[pol], segName(sg).c_str());
                const Hit* e = nullptr; for (auto& q : el) if (q.c == h.c) e = &q; int bi; const Col* kc = m.findC(h.c, &bi);
                if (!kc) r.fail("ray-dead", "raycast notifies a collider that does not exist");
                if (!e) r.fail("ray-false", "raycast (mask %x, %s) notifies c%d which is not hit or not eligible: %s", mask, PN[pol], kc->id, segName(sg).c_str());
                if (Shapes::concave(kc->shape) ? !(std::fabs((double)h.f - e->f) < 1e-6) : !(h.f == e->f)) r.fail("ray-differs", "raycast reports fraction %g for c%d, Collider::raycast %g", (double)h.f, kc->id, (double)e->f);
                MC_CHECK(r, geo::V(geo::V(h.p) - geo::V(e->p)).len() < 1e-5 && geo::V(geo::V(h.n) - geo::V(e->n)).len() < 1e-5 && h.body == e->body, "ray-differs", "raycast reports other data than Collider::raycast for c%d", kc->id);
                MC_CHECK(r, (double)h.f <= clip * (1 + 1e-6), "ray-clip", "raycast (%s) notifies c%d at %g although the ray was clipped to %g", PN[pol], kc->id, (double)h.f, clip);
                if (pol == 1 || (pol == 4 && !((n + 1) % 2))) clip = std::min(clip, (double)h.f); if (pol == 5) clip = std::min(clip, (double)h.f * 0.5); }
            r.checked();
            if (pol == 0 || pol == 2) for (auto& e : el) if (!seen.count(e.c)) { int bi; const Col* kc = m.findC(e.c, &bi); r.fail("ray-missed", "raycast (mask %x, %s) does not notify c%d hit at %g by %s", mask, PN[pol], kc->id, (double)e.f, segName(sg).c_str()); }
            if (pol == 3) MC_CHECK(r, cb.h.size() == (el.empty() ? 0u : 1u), "ray-terminate", "raycast (terminate) made %zu notifications, %zu colliders are hit", cb.h.size(), el.size());
            if (pol == 1 && !el.empty()) MC_CHECK(r, !cb.h.empty() && std::fabs((double)cb.h.back().f - nearest) < 1e-6, "ray-nearest", "raycast (clip) ends at %g, nearest hit is %g: %s", cb.h.empty() ? -1.0 : (double)cb.h.back().f, nearest, segName(sg).c_str());
            if (pol == 4 || pol == 5) for (auto& e : el) if ((double)e.f < clip * (1 - 1e-5) && !seen.count(e.c)) r.fail("ray-missed", "raycast (%s) does not notify a collider hit at %g before the clip fraction %g", PN[pol], (double)e.f, clip); } } }
static void history(Run& r, int depthQ, int depthT, int set) {
    static const std::vector<std::vector<int>> scenes[2] = {{{2,0,0, 2,1,1}, {0,1,0, 2,2,2}, {1,3,0, 0,4,1}, {2,5,1, 2,0,3}, {0,7,0, 2,6,3}}, {{2,0,0, 0,1,1, 2,3,2}, {0,4,0, 2,2,1, 1,0,3}}};
    auto& sc = scenes[set][r.choose((int)scenes[set].size())]; WM m(r); const double PX[4] = {0, 0.8, 1.9, 6};
    for (size_t k = 0; k + 2 < sc.size(); k += 3) m.addBody(TY(sc[k]), WM::at(PX[sc[k + 2]]), sc[k + 1]);
    int nb = (int)sc.size() / 3; std::vector<std::pair<std::string, std::function<bool()>>> O; auto add = [&](const std::string& n, std::function<bool()> f) { O.push_back({n, f}); };
    add("update", [&] { m.w->update(decimal(1.0 / 60)); return true; });
    for (int i = 0; i < nb; i++) { std::string b = "b" + std::to_string(i); auto alive = [&m, i] { return m.B[i].exists; };
        add(b + ".setTransform(x=6,rotated)", [&m, i, alive] { if (!alive()) return false; m.move(i, Transform(Vector3(6, 0, 0), axisAngle(1, 2, 3, 1.1))); return true; });
        add(b + ".setTransform(x=0.8)", [&m, i, alive] { if (!alive()) return false; m.move(i, WM::at(0.8)); return true; });
        add(b + ".toggleActive", [&m, i, alive] { if (!alive()) return false; m.setActive(i, !m.B[i].active); return true; });
        add(b + ".setIsSleeping(toggle)", [&m, i, alive] { if (!alive() || !m.B[i].active || m.B[i].type == BodyType::STATIC) return false; m.B[i].b->setIsSleeping(!m.B[i].b->isSleeping()); return true; });
        add(b + ".setIsWorldQueryCollider(toggle)", [&m, i, alive] { if (!alive() || m.B[i].cols.empty()) return false; auto& c = m.B[i].cols[0]; c.query = !c.query; c.c->setIsWorldQueryCollider(c.query); return true; });
        add(b + ".setCollisionCategoryBits(toggle)", [&m, i, alive] { if (!alive() || m.B[i].cols.empty()) return false; auto& c = m.B[i].cols[0]; c.cat = c.cat == 1 ? 0x8010 : 1; c.c->setCollisionCategoryBits(c.cat); return true; });
        add(b + ".setIsTrigger(toggle)", [&m, i, alive] { if (!alive() || m.B[i].cols.empty()) return false; auto& c = m.B[i].cols[0]; c.trig = !c.trig; c.c->setIsTrigger(c.trig); return true; });
        add(b + ".addCollider(sphere)", [&m, i, alive] { if (!alive() || m.B[i].cols.size() > 2) return false; m.addCol(i, 0, WM::at(0, 3.0)); return true; });
        add(b + ".removeCollider", [&m, i, alive] { if (!alive() || m.B[i].cols.empty()) return false; m.removeCol(i, 0); return true; });
        add(b + ".setLocalToBodyTransform", [&m, i, alive] { if (!alive() || m.B[i].cols.empty()) return false; auto& c = m.B[i].cols[0]; c.local = c.local.getPosition().y > 1 ? Transform::identity() : Transform(Vector3(0, 3, 0), axisAngle(0, 0, 1, 0.5)); c.c->setLocalToBodyTransform(c.local); return true; });
        add(b + ".move by velocity and update", [&m, i, alive] { if (!alive() || m.B[i].type == BodyType::STATIC) return false; m.B[i].b->setLinearVelocity(Vector3(48, 6, 0)); m.B[i].b->setAngularVelocity(Vector3(0, 9, 0)); m.w->update(decimal(1.0 / 60)); return true; });
        add(b + ".resize shape", [&m, i, alive] { if (!alive() || m.B[i].cols.empty()) return false; int id = m.B[i].cols[0].shape; m.sh->resize(id, m.sh->size[id] == 1 ? 2.5 : 1); return true; });
        add(b + ".destroy", [&m, i, alive] { if (!alive()) return false; m.destroyBody(i); return true; }); }
    add("createBody(box x=1.9)", [&m] { if (m.B.size() >= 5) return false; m.addBody(BodyType::DYNAMIC, WM::at(1.9), 1); return true; });
    casts(m); int depth = r.thorough ? depthT : depthQ, last = -1;
    for (int s = 0; s < depth; s++) { int k = r.choose((int)O.size()); if (k == 0 && last == 0) r.prune(); last = k; MC_LOG(r, "%s", O[k].first.c_str()); if (!O[k].second()) r.prune(); r.transition(); m.state(); casts(m); }
}
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"rays", [](Run& r) { history(r, 3, 4, 0); }, "all sequences of moves, velocity steps, resizing, activation, sleep, flags, collider and body lifetime calls on 2 bodies (5 scenes, 8 shapes); depth 3 (thorough 4); after every step 34 segments x 3 masks x up to 6 callback policies"});
    s.push_back({"rays3", [](Run& r) { history(r, 2, 3, 1); }, "the same on 3 bodies, depth 2 (thorough 3)"});
    s.push_back({"crowd", [](Run& r) { crowd(r, 1, r.thorough ? 3 : 2, casts, false); }, "6 and 18 (thorough also 40) freely moving and turning bodies of all types and shapes, with no base, triangle mesh, height field or box under them: each of 15 operations (create, destroy, deactivate, sleep, type, collider, role, filter, move, joint), all segments, masks and policies after every update, teardown in both orders"});
    return mc::main(c, v, propertyId("C04"), s, "hits within 0.01 of a silhouette are not judged against geometry; the world query must still agree exactly with Collider::raycast\nbacks of one-sided triangles are not judged"); }
