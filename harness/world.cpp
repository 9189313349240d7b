// Histories of API calls on a small world against the world model (C01, C02, C03, C05, C09, C17, C18).
#include "wm.h"
#include "crowd.h"
static const double PX[4] = {0, 0.8, 1.9, 6};
static WM* gW;
static const char* TN[] = {"static", "kinematic", "dynamic"};
static BodyType TY(int k) { return k == 0 ? BodyType::STATIC : k == 1 ? BodyType::KINEMATIC : BodyType::DYNAMIC; }

// one alphabet; a scenario enables a subset
struct Op { std::string name; std::function<bool(WM&)> run; };   // returns false when not applicable
static std::vector<Op> ops(const std::string& set, int nb) {
    std::vector<Op> o; auto add = [&](std::string n, std::function<bool(WM&)> f) { o.push_back({n, f}); };
    auto has = [&](const char* s) { return set.find(s) != std::string::npos; };
    add("update", [](WM& m) { m.update(); return true; });
    for (int i = 0; i < nb; i++) { std::string b = "b" + std::to_string(i);
        auto alive = [i](WM& m) { return i < (int)m.B.size() && m.B[i].exists; };
        auto col = [i, alive](WM& m) { return alive(m) && !m.B[i].cols.empty(); };
        if (has("move")) for (int k = 0; k < 4; k++) if (i > 0 || k == 0 || k == 3) add(b + ".setTransform(x=" + std::to_string(PX[k]) + ")", [=](WM& m) { if (!alive(m)) return false; m.move(i, WM::at(PX[k])); return true; });
        if (has("sleep")) { add(b + ".setIsSleeping(true)", [=](WM& m) { if (!alive(m) || !m.B[i].active || m.B[i].type == BodyType::STATIC || m.B[i].b->isSleeping()) return false; m.B[i].b->setIsSleeping(true); return true; });
            add(b + ".setIsSleeping(false)", [=](WM& m) { if (!alive(m) || !m.B[i].active || !m.B[i].b->isSleeping()) return false; m.B[i].b->setIsSleeping(false); return true; }); }
        if (has("size")) for (double k : {1., 3.}) add("resize shape of " + b + " to " + (k > 2 ? "300%" : "100%"), [=](WM& m) { if (!col(m)) return false; int id = m.B[i].cols[0].shape; if (m.sh->size[id] == k) return false; m.sh->resize(id, k); return true; });
        if (has("active")) { add(b + ".toggleActive", [=](WM& m) { if (!alive(m)) return false; m.setActive(i, !m.B[i].active); return true; }); }
        if (has("type")) for (int t = 0; t < 3; t++) add(b + ".setType(" + TN[t] + ")", [=](WM& m) { if (!alive(m) || m.B[i].type == TY(t)) return false; m.setType(i, TY(t)); return true; });
        if (has("bits")) { add(b + ".setCollideWithMaskBits(toggle)", [=](WM& m) { if (!col(m)) return false; auto& c = m.B[i].cols[0]; c.mask = c.mask == 0xffff ? (i == 0 ? 0x00f0 : 0x8100) : 0xffff; c.c->setCollideWithMaskBits(c.mask); return true; });
            add(b + ".setCollisionCategoryBits(toggle)", [=](WM& m) { if (!col(m)) return false; auto& c = m.B[i].cols[0]; c.cat = c.cat == 1 ? (i == 0 ? 0x8000 : 0x0010) : 1; c.c->setCollisionCategoryBits(c.cat); return true; }); }
        if (has("role")) { add(b + ".setIsTrigger(toggle)", [=](WM& m) { if (!col(m)) return false; auto& c = m.B[i].cols[0]; c.trig = !c.trig; if (c.trig) c.sim = false; c.c->setIsTrigger(c.trig); m.roleChanged(c.c); return true; });
            add(b + ".setIsSimulationCollider(toggle)", [=](WM& m) { if (!col(m)) return false; auto& c = m.B[i].cols[0]; c.sim = !c.sim; if (c.sim) c.trig = false; c.c->setIsSimulationCollider(c.sim); m.roleChanged(c.c); return true; }); }
        if (has("query")) add(b + ".setIsWorldQueryCollider(toggle)", [=](WM& m) { if (!col(m)) return false; auto& c = m.B[i].cols[0]; c.query = !c.query; c.c->setIsWorldQueryCollider(c.query); return true; });
        if (has("cols")) { add(b + ".addCollider(sphere)", [=](WM& m) { if (!alive(m) || m.B[i].cols.size() >= 3) return false; m.addCol(i, 0, WM::at(0, 0.3)); return true; });
            add(b + ".removeCollider(first)", [=](WM& m) { if (!col(m)) return false; m.removeCol(i, 0); return true; });
            add(b + ".setLocalToBodyTransform", [=](WM& m) { if (!col(m)) return false; auto& c = m.B[i].cols[0]; c.local = WM::at(0, c.local.getPosition().y > 1 ? 0.0 : 3.0); c.c->setLocalToBodyTransform(c.local); return true; }); }
        if (has("life")) { add(b + ".destroy", [=](WM& m) { if (!alive(m)) return false; m.destroyBody(i); return true; }); }
        if (has("parm")) { add(b + ".setters", [=](WM& m) { if (!alive(m)) return false; auto& q = m.B[i]; q.mass = q.mass + 1; q.b->setMass(q.mass); q.lindamp = 0.25f * (i + 1); q.b->setLinearDamping(q.lindamp); q.gravity = !q.gravity; q.b->enableGravity(q.gravity); q.ud = (char*)q.ud + i + 1; q.b->setUserData(q.ud);
                if (!q.cols.empty()) { auto& c = q.cols.back(); c.bounce = 0.1f * (i + 1); c.c->getMaterial().setBounciness(c.bounce); c.ud = (char*)c.ud + 1; c.c->setUserData(c.ud); } return true; });
            add(b + ".setIsAllowedToSleep(toggle)", [=](WM& m) { if (!alive(m)) return false; auto& q = m.B[i]; q.allowSleep = !q.allowSleep; q.b->setIsAllowedToSleep(q.allowSleep); return true; }); }
    }
    if (has("life")) { add("createBody(dynamic sphere x=0.8)", [](WM& m) { if (m.B.size() >= 6) return false; m.addBody(BodyType::DYNAMIC, WM::at(0.8), 0); return true; });
        add("createBody(static box x=0)", [](WM& m) { if (m.B.size() >= 6) return false; m.addBody(BodyType::STATIC, WM::at(0), 1); return true; }); }
    if (has("joint")) { for (int c = 0; c < 2; c++) add(std::string("createJoint(b0,b1,collision=") + (c ? "true)" : "false)"), [c](WM& m) { if (m.B.size() < 2 || !m.B[0].exists || !m.B[1].exists || m.J.size() >= 3) return false; m.addJoint(0, 1, c == 1, (int)m.J.size() % 4); return true; });
        add("destroyJoint(first)", [](WM& m) { if (m.J.empty()) return false; m.removeJoint(0); return true; });
        add("destroyJoint(last)", [](WM& m) { if (m.J.size() < 2) return false; m.removeJoint((int)m.J.size() - 1); return true; }); }
    if (has("queries")) add("queries", [](WM& m) { m.queries(); return true; });
    return o;
}
struct Cfg { std::string set; int nb; int dq, dt; std::vector<std::vector<int>> kinds; /* per initial scene: (type,shape,pos)* */ bool getters, queries; };
static void scenario(Run& r, const Cfg& cf) {
    auto& sc = cf.kinds[r.choose((int)cf.kinds.size())]; bool warm = r.flip();
    WM m(r); gW = &m; m.distinct = cf.getters; std::string d;
    for (size_t k = 0; k + 2 < sc.size(); k += 3) { m.addBody(TY(sc[k]), WM::at(PX[sc[k + 2]]), sc[k + 1]); d += std::string(" b") + std::to_string(k / 3) + "=" + TN[sc[k]] + " shape " + std::to_string(sc[k + 1]) + " x=" + std::to_string(PX[sc[k + 2]]); }
    MC_LOG(r, "world:%s", d.c_str());
    if (warm) { m.update(); m.update(); }
    auto O = ops(cf.set, cf.nb); int depth = r.thorough ? cf.dt : cf.dq; int last = -1;
    for (int s = 0; s < depth; s++) { int k = r.choose((int)O.size()); MC_LOG(r, "%s", O[k].name.c_str()); if (k == 0 && last == 0) r.prune(); last = k;
        std::map<const void*, WM::Snap> before; if (cf.getters) before = m.snap();
        if (!O[k].run(m)) r.prune(); r.transition(); if (cf.getters) { m.getters(); m.unchanged(before, O[k].name); } if (cf.queries) { m.queries(); } m.state(); }
    m.update(); if (cf.getters) m.getters(); m.update(); if (cf.queries) { m.queries(); m.queries(); }
    for (size_t i = 0; i < m.B.size(); i++) if (m.B[i].exists && m.B[i].active && m.B[i].type != BodyType::STATIC) m.B[i].b->setIsSleeping(false);   // everything awake again: nothing may have been lost
    m.update(); m.update();
    for (size_t i = 0; i < m.B.size(); i++) if (m.B[i].exists) { MC_LOG(r, "destroy b%zu", i); m.destroyBody((int)i); m.update(); }
    m.checkAlloc();
}
// One wide base under several separate bodies: several pairs of the same kind, so that every table of pairs has first, middle and last entries.
struct Many { int shape, top, btype, n; };
static void many(Run& r, const std::vector<Many>& sc, int depth, int init, bool queries, bool base) {
    const Many& k = sc[r.choose((int)sc.size())]; int st = r.choose(init); static const double X[4] = {-2, 0, 2, 0.9}; int n = k.n;
    WM m(r); gW = &m; m.addBody(TY(k.btype), WM::at(0), k.shape); for (int i = 0; i < n; i++) m.addBody(BodyType::DYNAMIC, WM::at(X[i]), (k.top + (i == 1 ? 1 : 0)) % 3);
    std::vector<bool> on(n + 1, true); MC_LOG(r, "world: base %s shape %d at 0, %d bodies on it, start %d (0 fresh, 1 two updates, 2 two updates and all asleep)", TN[k.btype], k.shape, n, st);
    if (st) { m.update(); m.update(); } if (st == 2) for (int i = 1; i <= n; i++) m.B[i].b->setIsSleeping(true);
    int last = -1;
    for (int s = 0; s < depth; s++) { int no = 1 + n * 4 + (base ? 3 : 0), o = r.choose(no); if (o == 0 && last == 0) r.prune(); last = o;
        if (o == 0) { MC_LOG(r, "update"); m.update(); }
        else { int i = o <= n * 4 ? (o - 1) / 4 + 1 : 0, w = o <= n * 4 ? (o - 1) % 4 : o - n * 4 - 1 + (o - n * 4 - 1 > 0 ? 1 : 0); auto& b = m.B[i]; if (!b.exists) r.prune();
            switch (w) {
            case 0: on[i] = !on[i]; MC_LOG(r, "b%d.setTransform(%s)", i, on[i] ? "back" : "far away"); m.move(i, WM::at(i ? X[i - 1] : 0, on[i] ? 0 : 9 + 3 * i)); break;
            case 1: { if (b.type == BodyType::STATIC || !b.active) r.prune(); bool z = !b.b->isSleeping(); MC_LOG(r, "b%d.setIsSleeping(%d)", i, z); b.b->setIsSleeping(z); break; }
            case 2: MC_LOG(r, "b%d.destroy", i); m.destroyBody(i); break;
            case 3: MC_LOG(r, "b%d.%s", i, i ? "toggleActive" : "setType(static/kinematic)"); if (i) m.setActive(i, !b.active); else m.setType(0, b.type == BodyType::STATIC ? BodyType::KINEMATIC : BodyType::STATIC); break; } }
        r.transition(); if (queries) m.queries(); m.state(); }
    m.update(); if (queries) m.queries(); m.update();
    for (size_t i = 0; i < m.B.size(); i++) if (m.B[i].exists && m.B[i].active && m.B[i].type != BodyType::STATIC) m.B[i].b->setIsSleeping(false);
    m.update(); m.update(); if (queries) m.queries();
    for (size_t i = 0; i < m.B.size(); i++) if (m.B[i].exists) { MC_LOG(r, "destroy b%zu", i); m.destroyBody((int)i); m.update(); }
    m.checkAlloc();
}
int main(int c, char** v) {
    std::string P = propertyId("C01"); std::vector<mc::Scenario> s;
    const int S = 0, K = 1, D = 2;
    std::vector<std::vector<int>> pairs = {{D,0,0, D,0,1}, {S,1,0, D,0,1}, {D,1,0, D,2,1}, {K,0,0, D,3,1}, {S,4,0, D,0,1}, {S,5,0, D,1,1}, {D,4,0, D,0,3}};
    std::vector<std::vector<int>> trios = {{D,0,0, D,0,1, D,0,2}, {S,7,0, D,0,1, D,1,2}, {S,4,0, D,0,1, K,1,2}, {D,0,0, D,0,0, S,1,3}};
    std::vector<std::vector<int>> sized = {{S,0,0, D,1,2}, {D,0,0, D,2,2}, {S,1,0, D,3,2}, {S,2,0, K,0,2}, {S,3,0, D,0,1}, {S,4,0, D,0,3}, {S,5,0, D,1,3}};
    auto mk = [&](std::string n, Cfg c, std::string b) { s.push_back({n, [c](Run& r) { scenario(r, c); }, b + "; scenes: " + std::to_string(c.kinds.size()) + " (shapes 0 sphere 1 box 2 capsule 3 octahedron 4 triangle mesh 5 height field), with and without two preceding updates; depth " + std::to_string(c.dq) + " (thorough " + std::to_string(c.dt) + "), final updates, wake-up and teardown"}); };
    if (P == "C01") { mk("history", {"move sleep active type", 2, 4, 5, pairs, false, false}, "all sequences of move/sleep/activate/type calls and updates on 2 bodies"); mk("trio", {"move sleep cols life", 3, 3, 4, trios, false, false}, "all sequences of move/sleep/collider/body lifetime calls on 3 bodies"); }
    if (P == "C01") mk("resize", {"move size sleep type", 2, 3, 4, sized, false, false}, "all sequences of resizing, move, sleep and type calls and updates on 2 bodies");
    if (P == "C05") mk("resized", {"size move sleep", 2, 3, 4, sized, false, true}, "all query forms after every step of resizing, moving and sleeping");
    if (P == "C02") { mk("lifecycle", {"move sleep role bits", 2, 4, 5, pairs, false, false}, "move/sleep/role/filter"); mk("lifetime", {"move active cols life joint", 2, 3, 4, pairs, false, false}, "move/activate/collider/body/joint lifetime"); }
    if (P == "C03") { mk("flags", {"bits role joint move1", 2, 4, 5, pairs, false, false}, "filter bits, roles, joints, moves"); mk("flagsq", {"bits role joint query sleep queries", 2, 3, 4, pairs, false, false}, "as flags with sleeping bodies and queries"); }
    if (P == "C05") { mk("queries", {"move sleep bits role query active", 2, 3, 4, pairs, false, true}, "all query forms after every step"); mk("queries3", {"move sleep cols life type", 3, 2, 3, trios, false, true}, "all query forms after every step, 3 bodies"); }
    if (P == "C09") { mk("activation", {"active move sleep type cols", 2, 3, 4, pairs, true, true}, "activation against everything else"); mk("activation3", {"active sleep joint life", 3, 3, 4, trios, true, false}, "activation with joints"); }
    if (P == "C17") { mk("types", {"type sleep active move", 2, 4, 5, pairs, true, false}, "type changes against sleep/activation/moves"); mk("typesjoint", {"type joint sleep cols", 2, 3, 4, pairs, true, false}, "type changes with joints and colliders"); }
    if (P == "C18") { mk("state", {"life parm cols sleep active", 3, 3, 4, trios, true, false}, "getters after every step"); mk("statejoint", {"life joint type parm bits role query", 2, 3, 4, pairs, true, false}, "getters after every step"); }
    auto mm = [&](const char* n, std::vector<Many> sc, int dq, int dt, bool q, bool base) { s.push_back({n, [=](Run& r) { many(r, sc, r.thorough ? dt : dq, 3, q, base); }, "all sequences of update, move on/off, sleep, activate, destroy (and of moving, retyping, destroying the base) on a base (triangle mesh, height field, static and dynamic box) under 3-4 separate bodies, from three starts; depth " + std::to_string(dq) + " (thorough " + std::to_string(dt) + "), final updates, wake-up and teardown"}); };
    const std::vector<Many> M3 = {{4,0,S,3}, {5,0,S,3}, {7,0,S,3}, {7,0,D,3}}, M4 = {{4,0,S,4}, {7,1,S,4}};
    if (P == "C01") mm("many", M3, 4, 5, false, true);
    if (P == "C02") mm("many4", M4, 4, 5, false, false);
    if (P == "C05") mm("manyqueries", M3, 2, 3, true, true);
    if (P == "C09") mm("manyactive", M4, 2, 3, true, true);
    auto cw = [&](const char* n, int dq, int dt, bool q, bool g) { s.push_back({n, [=](Run& r) { std::function<void(WM&)> post; if (q) post = [](WM& m) { m.queries(); }; crowd(r, r.thorough ? dt : dq, r.thorough || !q ? 3 : 2, post, g); }, "6, 18 and 40 freely moving and turning bodies of all types and shapes (compounds, triggers) on a lattice of two spacings, with no base, triangle mesh, height field or box under them: all sequences of " + std::to_string(dq) + " (thorough " + std::to_string(dt) + ") of 15 operations (destroy first/middle/last, create, deactivate, sleep, type, collider, role, filter, move, joint), an update or two after each, and teardown in both orders"}); };
    if (P == "C01" || P == "C02") cw("crowd", 1, 2, false, false);
    if (P == "C05") cw("crowdqueries", 1, 1, true, false);
    if (P == "C09" || P == "C18") cw("crowdstate", 1, 2, false, true);
    return mc::main(c, v, P.c_str(), s, "bodies are locked in place (lock factors 0) so that placements are exactly the user's\npairs closer than 0.01 to touching are not judged\nthe end of a contact episode by destroying or deactivating a body needs no Exit event");
}
