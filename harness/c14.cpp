// Joints can be created and destroyed in any order (C14).  "isolated": several jointed pairs in one world must move bit
// for bit as each pair does alone in a world of its own, whatever happens to the others.  "graph": joints between any of
// three bodies; a live joint constrains, a destroyed one does not, and collision is disabled exactly while a live joint says so.
#include "joint.h"
static const char* OPN[] = {"destroy joint", "create joint", "put both to sleep", "wake", "deactivate body 1", "activate body 1", "destroy body 2", "destroy body 1", "change parameters", "set body 1 static", "set body 1 dynamic", "change sleeping permission"};
enum { DJ, CJ, SLP, WAKE, DEACT, ACT, DB2, DB1, PAR, STAT, DYN, PERM, NOP };
struct Pair { int idx; rp3d::RigidBody *a = nullptr, *b = nullptr; J13 j; bool has = false; bool act = true; int made = 0; };
static rp3d::RigidBody* mk(rp3d::PhysicsCommon& pc, rp3d::PhysicsWorld* w, Vector3 pos, Quaternion q, double m) { auto* b = w->createRigidBody(Transform(pos, q)); b->addCollider(pc.createBoxShape(Vector3(decimal(.4), decimal(.5), decimal(.6))), Transform::identity()); b->updateMassPropertiesFromColliders(); b->setMass((decimal)m); b->setLinearVelocity(Vector3(decimal(.3), decimal(.5), decimal(-.2))); b->setAngularVelocity(Vector3(decimal(.1), decimal(.4), decimal(.9))); return b; }
struct IsoW { PageAllocator al; rp3d::PhysicsCommon pc; rp3d::PhysicsWorld* w; Pair p[3]; int n = 0;
    IsoW() : pc(&al) { rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, -3, 0); s.defaultTimeBeforeSleep = 1e6f; w = pc.createPhysicsWorld(s); }
    void bodies(int k) { Pair& q = p[k]; q.idx = k; Vector3 o(decimal(20 * k), 0, decimal(-15 * k)); q.a = mk(pc, w, o, axisAngle(1, 2, 3, 0.5 * k), 1 + k); q.b = mk(pc, w, o + Vector3(decimal(1.5), decimal(.3), decimal(k * .2)), axisAngle(-1, 1, 0, 1.0 - 0.4 * k), 2); }
    void joint(int k, int type) { Pair& q = p[k]; J13 j; j.type = type; j.a = q.a; j.b = q.b; int s = 3 * k + q.made++; j.lo = type == SLIDER ? -0.3 - 0.02 * s : -0.4 - 0.02 * s; j.hi = 0.5 + 0.05 * s; j.lim = type == BALL ? false : (type == HINGE || type == SLIDER); j.motor = (type == HINGE || type == SLIDER) && s % 2; j.speed = 0.2 + 0.1 * s; j.maxF = 3 + s; D3 a = d3(q.a->getTransform().getPosition()), b = d3(q.b->getTransform().getPosition()); j.create(w, (a + b) * .5, {0.3, 1, 0.2 * k}, false, s % 3 == 2 ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, k % 2); q.j = j; q.has = true; }
    bool legal(int k, int op) { Pair& q = p[k]; switch (op) { case DJ: return q.has; case PAR: return q.has && q.j.type != FIXED; case CJ: return !q.has && q.a && q.b && q.act; case SLP: return q.a && q.b && q.act && !q.a->isSleeping(); case WAKE: return q.a && q.b && q.act && q.a->isSleeping(); case DEACT: return q.a && q.act; case ACT: return q.a && !q.act; case DB2: return q.b; case DB1: return q.a; case STAT: return q.a && q.act && q.a->getType() == BodyType::DYNAMIC; case DYN: return q.a && q.act && q.a->getType() == BodyType::STATIC; default: return true; } }
    void apply(int k, int op, int type) { Pair& q = p[k]; switch (op) { case DJ: w->destroyJoint(q.j.j); q.has = false; break; case CJ: joint(k, type); break; case SLP: q.a->setIsSleeping(true); q.b->setIsSleeping(true); break; case WAKE: q.a->setIsSleeping(false); q.b->setIsSleeping(false); break; case DEACT: q.a->setIsActive(false); q.act = false; break; case ACT: q.a->setIsActive(true); q.act = true; break;
        case DB2: w->destroyRigidBody(q.b); q.b = nullptr; q.has = false; break; case DB1: w->destroyRigidBody(q.a); q.a = nullptr; q.has = false; break; case STAT: q.a->setType(BodyType::STATIC); break; case DYN: q.a->setType(BodyType::DYNAMIC); break;
        case PAR: { J13& j = q.j; if (j.type == BALL) { j.lim = !j.lim; j.hi = 0.3 + 0.1 * k; auto* h = static_cast<rp3d::BallAndSocketJoint*>(j.j); h->setConeLimitHalfAngle((decimal)j.hi); h->enableConeLimit(j.lim); } if (j.type == HINGE) { auto* h = static_cast<rp3d::HingeJoint*>(j.j); j.hi += 0.3; j.lo -= 0.2; j.motor = !j.motor; j.maxF += 1; h->setMaxAngleLimit((decimal)j.hi); h->setMinAngleLimit((decimal)j.lo); h->enableMotor(j.motor); h->setMaxMotorTorque((decimal)j.maxF); } if (j.type == SLIDER) { auto* h = static_cast<rp3d::SliderJoint*>(j.j); j.hi += 0.3; j.lo -= 0.2; j.motor = !j.motor; j.speed = -j.speed; h->setMaxTranslationLimit((decimal)j.hi); h->setMinTranslationLimit((decimal)j.lo); h->enableMotor(j.motor); h->setMotorSpeed((decimal)j.speed); } break; } } }
    std::vector<decimal> obs(int k) { std::vector<decimal> o; Pair& q = p[k]; for (auto* b : {q.a, q.b}) if (b) { auto P = b->getTransform().getPosition(), V = b->getLinearVelocity(), W = b->getAngularVelocity(); auto Q = b->getTransform().getOrientation(); for (decimal x : {P.x, P.y, P.z, Q.x, Q.y, Q.z, Q.w, V.x, V.y, V.z, W.x, W.y, W.z}) o.push_back(x); o.push_back(b->isSleeping()); } if (q.has) { auto f = q.j.j->getReactionForce(1), t = q.j.j->getReactionTorque(1); for (decimal x : {f.x, f.y, f.z, t.x, t.y, t.z}) o.push_back(x); } return o; }
};
static std::map<std::string, std::vector<decimal>> SOLO;      // history of one pair (with its updates) -> what it looks like alone
static const std::vector<decimal>& solo(int k, const std::string& h) { auto it = SOLO.find(h); if (it != SOLO.end()) return it->second; IsoW x; x.bodies(k); for (size_t i = 1; i < h.size(); i++) { if (h[i] == 'u') x.w->update(decimal(1.0 / 60)); else if (h[i] == 'c') { x.joint(k, h[++i] - '0'); } else x.apply(k, h[i] - 'A', 0); } return SOLO[h] = x.obs(k); }
static void isoScene(Run& r) { int t0 = r.choose(4), rest = r.choose(4), n = r.thorough ? 3 : 2; if (r.thorough) n = 2 + r.choose(2); IsoW x; x.n = n; std::string h[3]; int types[3] = {t0, t0, t0}; types[1 + rest % 2] = (t0 + rest) % 4; if (n == 2 && rest == 2) types[1] = (t0 + 2) % 4; if (n == 2) types[2] = 0;
    for (int k = 0; k < n; k++) { x.bodies(k); h[k] = std::string(1, char('0' + k)); } for (int k = 0; k < n; k++) { x.joint(k, types[k]); h[k] += 'c'; h[k] += char('0' + types[k]); MC_LOG(r, "pair %d: %s joint", k, TN[types[k]]); }
    auto check = [&](const char* when) { for (int k = 0; k < n; k++) { auto o = x.obs(k); const auto& s = solo(k, h[k]); r.checked(o.size()); if (o.size() != s.size()) r.fail("observables", "harness: observables differ in number"); for (size_t i = 0; i < o.size(); i++) if (memcmp(&o[i], &s[i], sizeof(decimal))) r.fail("bystander", "%s: pair %d differs from the same pair alone in a world (value %zu is %.9g, alone %.9g)", when, k, i, (double)o[i], (double)s[i]); if (x.p[k].has) x.p[k].j.getters(r, when, x.p[k].a->isActive() && x.p[k].b->isActive() ? 1 : 0); } };
    auto upd = [&] { x.w->update(decimal(1.0 / 60)); r.transition(); for (int k = 0; k < n; k++) h[k] += 'u'; };
    upd(); check("start"); int depth = r.thorough ? (n == 2 ? 4 : 3) : 3; for (int s = 0; s < depth; s++) { int k = r.choose(n), op = r.choose(11); if (!x.legal(k, op)) r.prune(); int type = op == CJ ? r.choose(4) : 0; MC_LOG(r, "%s of pair %d %s", OPN[op], k, op == CJ ? TN[type] : ""); x.apply(k, op, type); if (op == CJ) { h[k] += 'c'; h[k] += char('0' + type); } else h[k] += char('A' + op); check("after the call"); upd(); check(OPN[op]); }
    for (int u = 0; u < 3; u++) upd(); check("end"); mc::Hash hh; for (int k = 0; k < n; k++) for (decimal d : x.obs(k)) hh.d(d); r.state(hh.h); MC_CHECK(r, x.al.error.empty(), "allocator", "%s", x.al.error.c_str()); if (SOLO.size() > 200000) SOLO.clear(); }

struct GL : rp3d::EventListener { std::set<std::pair<void*, void*>> hit; void onContact(const CallbackData& d) override { for (rp3d::uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); if (p.getEventType() == ContactPair::EventType::ContactExit) continue; void *a = p.getBody1(), *b = p.getBody2(); hit.insert({std::min(a, b), std::max(a, b)}); } } };
static void graphScene(Run& r) { bool close = r.flip(); bool stat = r.flip(); PageAllocator al; rp3d::PhysicsCommon pc(&al); rp3d::PhysicsWorld::WorldSettings st; st.gravity = Vector3(0, close ? 0 : -5, 0); st.defaultTimeBeforeSleep = 1e6f; auto* w = pc.createPhysicsWorld(st); GL gl; w->setEventListener(&gl); rp3d::RigidBody* B[3]; double gap = close ? 0.9 : 2.5; MC_LOG(r, "three bodies, %s%s", close ? "touching" : "apart", stat ? ", the first static" : "");
    auto body = [&](int k) { B[k] = w->createRigidBody(Transform(Vector3(decimal(k == 0 ? 0 : k == 1 ? gap : gap / 2), decimal(k == 2 ? gap * .86 : 0), 0), Quaternion::identity())); B[k]->addCollider(pc.createSphereShape(decimal(.5)), Transform::identity()); B[k]->updateMassPropertiesFromColliders(); if (stat && k == 0) B[k]->setType(BodyType::STATIC); }; for (int k = 0; k < 3; k++) body(k);
    struct L { J13 j; int a, b; bool coll; }; std::vector<L> live; int depth = r.thorough ? 5 : 4; bool wasJointed[3] = {false, false, false}; static const int PA[] = {0, 1, 0, 1}, PB[] = {1, 2, 2, 0};
    D3 push[3] = {}; auto upd = [&](const char* when) { std::map<int, D3> v0; for (int k = 0; k < 3; k++) if (B[k]) v0[k] = d3(B[k]->getLinearVelocity()); Vector3 p0[3]; for (int k = 0; k < 3; k++) if (B[k]) p0[k] = B[k]->getTransform().getPosition(); gl.hit.clear(); w->update(decimal(1.0 / 60)); r.transition();
        for (int i = 0; i < 3; i++) for (int k = i + 1; k < 3; k++) if (B[i] && B[k]) { bool off = false; for (auto& l : live) if (((l.a == i && l.b == k) || (l.a == k && l.b == i)) && !l.coll) off = true; double d = dist(p0[i], p0[k]); bool touch = d < 1 - 0.002, apart = d > 1.002; void *a = B[i], *b = B[k]; bool hit = gl.hit.count({std::min(a, b), std::max(a, b)}); r.checked(); if (off ? hit : (touch ? !hit : apart ? hit : false)) r.fail(hit ? "collides" : "no-collision", "%s: bodies %d and %d (distance %g) %s although %s", when, i, k, d, hit ? "collide" : "do not collide", off ? "a joint disables their collision" : "no joint disables their collision"); }
        for (int k = 0; k < 3; k++) if (B[k]) { bool jointed = false; for (auto& l : live) if (l.a == k || l.b == k) jointed = true; bool hit = false; for (int i = 0; i < 3; i++) if (B[i] && i != k) { void *a = B[i], *b = B[k]; if (gl.hit.count({std::min(a, b), std::max(a, b)})) hit = true; } if (jointed || hit || B[k]->getType() == BodyType::STATIC) continue; D3 dv = d3(B[k]->getLinearVelocity()) - v0[k] - push[k] * (1 / 60.0 / B[k]->getMass()); r.checked(); if (len(dv - D3{0, (close ? 0 : -5) / 60.0, 0}) > 1e-4) r.fail("ghost-joint", "%s: body %d has no joint and no contact but its velocity changes by (%g,%g,%g)", when, k, dv.x, dv.y, dv.z); }
        for (auto& l : live) { l.j.getters(r, when, 1); MC_CHECK(r, l.j.j->isCollisionEnabled() == l.coll, "collision-flag", "%s: joint reports isCollisionEnabled %d, set %d", when, l.j.j->isCollisionEnabled(), l.coll); MC_CHECK(r, l.j.j->getType() == (l.j.type == BALL ? rp3d::JointType::BALLSOCKETJOINT : l.j.type == FIXED ? rp3d::JointType::FIXEDJOINT : l.j.type == HINGE ? rp3d::JointType::HINGEJOINT : rp3d::JointType::SLIDERJOINT), "type", "%s: joint of another type", when); if (!close) l.j.holds(r, when, 9, 0.1, 0.1); } };
    upd("start"); for (int s = 0; s < depth; s++) { int op = r.choose(10); if (op < 4) { if ((int)live.size() >= 4) r.prune(); int type = r.thorough && s == 0 ? r.choose(4) : (s + op) % 4; bool coll = r.flip(); int a = PA[op], b = PB[op]; if (!B[a] || !B[b]) r.prune(); L l; l.a = a; l.b = b; l.coll = coll; l.j.type = type; l.j.a = B[a]; l.j.b = B[b]; l.j.lo = -0.5 - 0.1 * s; l.j.hi = 0.5 + 0.1 * s; D3 x = d3(B[a]->getTransform().getPosition()), y = d3(B[b]->getTransform().getPosition()); MC_LOG(r, "%s joint %d-%d, collision %d", TN[type], a, b, coll); l.j.create(w, (x + y) * .5, type == SLIDER ? y - x : D3{0, 0, 1}, false, JT::NON_LINEAR_GAUSS_SEIDEL, coll); live.push_back(l); }
        else if (op < 7) { int k = op - 4; if (k >= (int)live.size()) r.prune(); MC_LOG(r, "destroy joint %d-%d", live[k].a, live[k].b); w->destroyJoint(live[k].j.j); live.erase(live.begin() + k); }
        else { int k = op - 7; if (B[k]) { MC_LOG(r, "destroy body %d", k); w->destroyRigidBody(B[k]); B[k] = nullptr; std::vector<L> keep; for (auto& l : live) if (l.a != k && l.b != k) keep.push_back(l); live = keep; } else { if (!close) r.prune(); MC_LOG(r, "new body %d", k); bool free = true; body(k); (void)free; } }
        upd("update"); if (!close && op < 7 && op >= 4) { MC_LOG(r, "push the bodies"); for (int k = 0; k < 3; k++) if (B[k]) { push[k] = D3{3.0 * k - 2, 0, 1.0 * k}; B[k]->applyWorldForceAtCenterOfMass(v3(push[k])); } upd("pushed"); for (auto& q : push) q = D3{0, 0, 0}; } }
    for (int u = 0; u < 3; u++) upd("end"); (void)wasJointed; mc::Hash h; for (auto* b : B) if (b) hashT(h, b->getTransform()); h.u(live.size()); r.state(h.h); MC_CHECK(r, al.error.empty(), "allocator", "%s", al.error.c_str()); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"isolated", isoScene, "2 (thorough 2-3) jointed pairs of bodies in one world, 16 combinations of joint types; then every sequence of 3 calls (thorough 4 for two pairs, 3 for three) out of 11 (destroy/create joint, sleep, wake, (de)activate, destroy either body, change parameters, set static/dynamic) on any pair with an update after each; every body and joint value compared bitwise with the pair alone in its own world"});
    s.push_back({"graph", graphScene, "3 bodies (touching or apart, one static or none); every sequence of 4 (thorough 5) calls out of create joint on 4 ordered pairs x collision flag, destroy joint 0-2, destroy/re-create each body, an update after each; judged: contacts against the collision flags of the live joints, free motion of unjointed bodies, constraint of live joints, all getters"});
    return mc::main(c, v, propertyId("C14"), s, "joint parameters of the isolated scenario vary with the pair and creation count; the free-motion oracle applies to bodies with neither contact nor joint"); }
