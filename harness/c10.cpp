// Determinism and independence of bystanders (C10): the same calls are made on two freshly created worlds, one of them
// with extra activity that must not matter (queries, other worlds, debug renderer, listeners, dirty memory).  Transforms,
// velocities, sleep states and events are compared bit for bit after every update.
#include "rp.h"
using namespace rp3d;
static const int NSC = 13;
static const char* SCN[NSC] = {"heap of spheres", "stack of boxes", "boxes falling on edges", "capsules", "convex meshes", "bodies on a triangle mesh", "bodies on a height field", "chain of ball-and-socket joints", "hinge and slider with motors", "kinematic pusher", "triggers and filters", "resting bodies that sleep", "weightless bodies at rest"};
static const char* OPN[] = {"nothing", "push the first body", "setTransform of the last body onto the pile", "remove the first body", "add a sphere", "deactivate the second body", "activate the second body", "second body becomes static", "collider of the last body removed", "gravity upwards", "teleport the first body away and back", "new velocities"};
static const int NOP = 12;
enum { P_NONE, P_FILL_A5, P_FILL_FF, P_FILL_3F, P_FILL_7F, P_DIRTY, P_OTHER_BEFORE, P_OTHER_STEPPED, P_OTHER_DESTROYED, P_COMMON_STEPPED, P_DEBUG, P_DEBUG_TOGGLE, P_NOLISTENER, P_RAY, P_RAYBODY, P_OVERLAP2, P_OVERLAP1, P_OVERLAP0, P_COLL2, P_COLL1, P_COLL0, P_POINT, P_AABB, P_GETTERS, P_QMIX, P_SHAPEQ, NP };
static const char* PN[NP] = {"nothing", "memory filled with A5", "memory filled with FF", "memory filled with 3F", "memory filled with 7F", "memory used by an earlier world", "another world created before", "another world of the same PhysicsCommon stepped", "another world destroyed in between", "a world of another PhysicsCommon stepped", "debug rendering", "debug rendering toggled", "no event listener", "world ray cast", "body and collider ray cast", "testOverlap(body, body)", "testOverlap(body, callback)", "testOverlap(callback)", "testCollision(body, body)", "testCollision(body, callback)", "testCollision(callback)", "point tests", "AABB getters", "getters", "all overlap and collision queries", "shape getters"};
struct Ev { std::vector<double> v; };
struct Sim : EventListener {
    PageAllocator al; std::unique_ptr<PhysicsCommon> pc; PhysicsWorld* w = nullptr; std::vector<RigidBody*> B; std::vector<bool> alive; std::map<void*, int> id; int nid = 1; std::vector<double> ev; std::vector<std::vector<double>> frames; bool debug = false;
    std::vector<CollisionShape*> shapes; int steps = 0; PhysicsWorld* other = nullptr; std::vector<RigidBody*> ob; std::unique_ptr<PhysicsCommon> pc2; PageAllocator al2; PhysicsWorld* other2 = nullptr; bool listen = true;
    std::vector<float> mv, hv; std::vector<unsigned> mi;
    ~Sim() { pc2.reset(); pc.reset(); }
    void onContact(const CollisionCallback::CallbackData& d) override { ev.push_back(1e6 + d.getNbContactPairs()); for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); ev.push_back(id[p.getCollider1()]); ev.push_back(id[p.getCollider2()]); ev.push_back((int)p.getEventType()); for (uint32 k = 0; k < p.getNbContactPoints(); k++) { auto c = p.getContactPoint(k); for (auto& q : {c.getLocalPointOnCollider1(), c.getLocalPointOnCollider2(), c.getWorldNormal()}) { ev.push_back(q.x); ev.push_back(q.y); ev.push_back(q.z); } ev.push_back(c.getPenetrationDepth()); } } }
    void onTrigger(const OverlapCallback::CallbackData& d) override { ev.push_back(2e6 + d.getNbOverlappingPairs()); for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto p = d.getOverlappingPair(i); ev.push_back(id[p.getCollider1()]); ev.push_back(id[p.getCollider2()]); ev.push_back((int)p.getEventType()); } }
    Collider* col(RigidBody* b, CollisionShape* s, const Transform& t = Transform::identity()) { Collider* c = b->addCollider(s, t); id[c] = nid++; return c; }
    RigidBody* body(double x, double y, double z, CollisionShape* s, BodyType t = BodyType::DYNAMIC, const Quaternion& q = Quaternion::identity()) { RigidBody* b = w->createRigidBody(Transform(Vector3((decimal)x, (decimal)y, (decimal)z), q)); col(b, s); if (!plain) { b->updateMassPropertiesFromColliders(); b->setType(t); } B.push_back(b); alive.push_back(true); return b; }
    ConvexMesh* octa() { std::vector<Message> ms; static const float v[] = {.5f,0,0, -.5f,0,0, 0,.5f,0, 0,-.5f,0, 0,0,.5f, 0,0,-.5f}; VertexArray va(v, 12, 6, VertexArray::DataType::VERTEX_FLOAT_TYPE); return pc->createConvexMesh(va, ms); }
    void build(int sc) {
        CollisionShape *sp = pc->createSphereShape(decimal(.5)), *bx = pc->createBoxShape(Vector3(decimal(.5), decimal(.5), decimal(.5))), *fl = pc->createBoxShape(Vector3(10, 1, 10)), *cp = pc->createCapsuleShape(decimal(.3), decimal(.8));
        Quaternion tilt = Quaternion::fromEulerAngles(decimal(.3), decimal(.4), decimal(.6));
        if (sc != 5 && sc != 6 && sc != 12) body(0, -1, 0, fl, BodyType::STATIC);
        switch (sc) {
        case 0: for (int i = 0; i < 6; i++) body(.9 * (i % 3) + .1 * (i / 3), .49 + .8 * (i / 3), .05 * i, sp); break;
        case 1: for (int i = 0; i < 4; i++) body(.02 * i, .5 + .99 * i, 0, bx); break;
        case 2: for (int i = 0; i < 4; i++) body(1.1 * i, .8, .2 * i, bx, BodyType::DYNAMIC, tilt); break;
        case 3: for (int i = 0; i < 4; i++) body(.5 * i, .6 + .3 * i, .1 * i, cp, BodyType::DYNAMIC, i % 2 ? tilt : Quaternion::fromEulerAngles(0, 0, decimal(1.4))); break;
        case 4: { auto* m = pc->createConvexMeshShape(octa()); for (int i = 0; i < 4; i++) body(.6 * i, .5 + .4 * i, .1 * i, i == 2 ? bx : m, BodyType::DYNAMIC, i % 2 ? tilt : Quaternion::identity()); break; }
        case 5: { std::vector<Message> ms; for (int x = 0; x < 5; x++) for (int z = 0; z < 5; z++) { mv.push_back(x - 2.f); mv.push_back(((x * 7 + z * 5) % 3) * .2f); mv.push_back(z - 2.f); } for (unsigned x = 0; x < 4; x++) for (unsigned z = 0; z < 4; z++) { unsigned a = x * 5 + z, b = a + 5; for (unsigned k : {a, a + 1, b, b, a + 1, b + 1}) mi.push_back(k); }
            TriangleVertexArray ta(25, mv.data(), 12, 32, mi.data(), 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); auto* m = pc->createTriangleMesh(ta, ms); body(0, 0, 0, pc->createConcaveMeshShape(m, Vector3(1, 1, 1)), BodyType::STATIC); body(0, .8, 0, sp); body(.9, 1, .1, bx, BodyType::DYNAMIC, tilt); body(-.9, .9, .2, cp); body(.1, 1.1, 1, pc->createConvexMeshShape(octa())); break; }
        case 6: { std::vector<Message> ms; for (int i = 0; i < 36; i++) hv.push_back(((i * 7) % 5) * .15f); auto* h = pc->createHeightField(6, 6, hv.data(), HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, ms); body(0, 0, 0, pc->createHeightFieldShape(h), BodyType::STATIC); body(0, .9, 0, sp); body(.9, 1.1, .1, bx, BodyType::DYNAMIC, tilt); body(-.9, 1, .2, cp); break; }
        case 7: { for (int i = 0; i < 5; i++) body(.9 * i, 3, 0, sp); B[1]->setType(BodyType::STATIC); for (int i = 1; i < 5; i++) { BallAndSocketJointInfo inf(B[i], B[i + 1], Vector3(decimal(.9 * (i - 1) + .45), 3, 0)); inf.isCollisionEnabled = i % 2; w->createJoint(inf); } break; }
        case 8: { body(0, 1, 0, bx, BodyType::STATIC); body(1.2, 1, 0, bx); body(0, 2.2, 0, bx); body(2.4, 1.2, 0, sp); HingeJointInfo h(B[1], B[2], Vector3(decimal(.6), 1, 0), Vector3(0, 0, 1)); h.isMotorEnabled = true; h.motorSpeed = 2; h.maxMotorTorque = 50; w->createJoint(h); SliderJointInfo s(B[1], B[3], Vector3(0, decimal(1.6), 0), Vector3(0, 1, 0)); s.isLimitEnabled = true; s.minTranslationLimit = decimal(-.1); s.maxTranslationLimit = 1; w->createJoint(s); FixedJointInfo f(B[2], B[4], Vector3(decimal(1.8), 1, 0)); w->createJoint(f); break; }
        case 9: { body(0, .5, 0, bx, BodyType::KINEMATIC)->setLinearVelocity(Vector3(1, 0, 0)); for (int i = 0; i < 3; i++) body(1.05 + 1.01 * i, .5, .05 * i, i == 1 ? sp : bx); break; }
        case 10: { for (int i = 0; i < 5; i++) body(.8 * i, .5 + .1 * i, .1 * i, i % 2 ? bx : sp); B[2]->getCollider(0)->setIsTrigger(true); B[2]->enableGravity(false); B[3]->getCollider(0)->setCollideWithMaskBits(2); B[4]->getCollider(0)->setCollisionCategoryBits(3); col(B[1], cp, Transform(Vector3(0, decimal(.8), 0), Quaternion::identity())); B[1]->updateMassPropertiesFromColliders(); break; }
        case 11: w->setTimeBeforeSleep(decimal(.05)); for (int i = 0; i < 4; i++) body(1.3 * i, .499, 0, i % 2 ? bx : sp); break;
        case 12: w->setTimeBeforeSleep(decimal(.1)); w->setGravity(Vector3(0, 0, 0)); plain = true; for (int i = 0; i < 5; i++) body(i == 3 ? 3.85 : 1.3 * i, 3, 0, i % 2 ? bx : sp); break; }
    }
    // a second world with a life of its own
    static PhysicsWorld* mk(PhysicsCommon& pc, std::vector<RigidBody*>& out) { PhysicsWorld* o = pc.createPhysicsWorld(); CollisionShape *s = pc.createSphereShape(decimal(.5)), *f = pc.createBoxShape(Vector3(5, 1, 5)); RigidBody* b = o->createRigidBody(Transform(Vector3(0, -1, 0), Quaternion::identity())); b->addCollider(f, Transform::identity()); b->setType(BodyType::STATIC); for (int i = 0; i < 5; i++) { b = o->createRigidBody(Transform(Vector3(decimal(.4) * i, decimal(.45) + decimal(.9) * i, 0), Quaternion::identity())); b->addCollider(s, Transform::identity()); out.push_back(b); } return o; }
    void start(int sc, int p) { if (p == P_FILL_A5) al.fill = 0xA5; if (p == P_FILL_FF) al.fill = 0xFF; if (p == P_FILL_3F) al.fill = 0x3F; if (p == P_FILL_7F) al.fill = 0x7F; pc.reset(new PhysicsCommon(&al)); std::vector<RigidBody*> t;
        if (p == P_DIRTY) { PhysicsWorld* o = mk(*pc, t); for (int i = 0; i < 4; i++) o->update(decimal(1.0 / 60)); t[1]->setLinearVelocity(Vector3(3, 2, 1)); o->update(decimal(.1)); pc->destroyPhysicsWorld(o); }
        if (p == P_OTHER_BEFORE || p == P_OTHER_DESTROYED) { other = mk(*pc, ob); other->update(decimal(.02)); }
        w = pc->createPhysicsWorld(); listen = p != P_NOLISTENER; if (listen) w->setEventListener(this); if (p == P_OTHER_STEPPED) { other = mk(*pc, ob); } if (p == P_COMMON_STEPPED) { pc2.reset(new PhysicsCommon(&al2)); other2 = mk(*pc2, ob); }
        build(sc); if (p == P_DEBUG) dbg(true); }
    void dbg(bool on) { w->setIsDebugRenderingEnabled(on); for (auto it : {DebugRenderer::DebugItem::COLLIDER_AABB, DebugRenderer::DebugItem::COLLIDER_BROADPHASE_AABB, DebugRenderer::DebugItem::COLLISION_SHAPE, DebugRenderer::DebugItem::CONTACT_POINT, DebugRenderer::DebugItem::CONTACT_NORMAL}) w->getDebugRenderer().setIsDebugItemDisplayed(it, on); for (size_t i = 0; i < B.size(); i++) if (alive[i]) B[i]->setIsDebugEnabled(on); debug = on; }
    RigidBody* nth(int k) { for (size_t i = 1; i < B.size(); i++) if (alive[i] && k-- == 0) return B[i]; return nullptr; }
    RigidBody* lastB() { for (size_t i = B.size(); i-- > 1;) if (alive[i]) return B[i]; return nullptr; }
    void op(int k) { RigidBody *f = nth(0), *s = nth(1), *l = lastB(); if (!f || !l) return;
        switch (k) { case 1: f->applyWorldForceAtWorldPosition(Vector3(200, 100, 50), f->getTransform().getPosition() + Vector3(0, decimal(.2), 0)); break; case 2: l->setTransform(Transform(Vector3(decimal(.3), decimal(1.2), decimal(.1)), Quaternion::identity())); break; case 3: for (size_t i = 0; i < B.size(); i++) if (B[i] == f) alive[i] = false; w->destroyRigidBody(f); break; case 4: body(.4, 1.6, .2, pc->createSphereShape(decimal(.4))); if (debug) B.back()->setIsDebugEnabled(true); break;
        case 5: if (s) s->setIsActive(false); break; case 6: if (s) s->setIsActive(true); break; case 7: if (s) s->setType(BodyType::STATIC); break; case 8: if (l->getNbColliders()) l->removeCollider(l->getCollider(0)); break; case 9: w->setGravity(Vector3(0, decimal(9.81), 0)); break; case 10: { Transform t = f->getTransform(); f->setTransform(Transform(Vector3(50, 50, 50), Quaternion::identity())); w->testOverlap(f, l); f->setTransform(t); break; } case 11: f->setLinearVelocity(Vector3(1, 2, 0)); l->setAngularVelocity(Vector3(3, 0, 1)); break; } }
    struct RC : RaycastCallback { int n = 0; decimal notifyRaycastHit(const RaycastInfo&) override { n++; return 1; } };
    struct CC : CollisionCallback { int n = 0; void onContact(const CallbackData& d) override { n += d.getNbContactPairs(); } }; struct OC : OverlapCallback { int n = 0; void onOverlap(CallbackData& d) override { n += d.getNbOverlappingPairs(); } };
    // the bystander activity
    void perturb(int p) { RC rc; CC cc; OC oc; std::vector<RigidBody*> L; for (size_t i = 0; i < B.size(); i++) if (alive[i]) L.push_back(B[i]);
        switch (p) { case P_OTHER_STEPPED: if (other) { other->update(decimal(1.0 / 60)); ob[0]->setTransform(Transform(Vector3(decimal(.1) * (steps % 5), 2, 0), Quaternion::identity())); } break; case P_COMMON_STEPPED: other2->update(decimal(1.0 / 60)); break; case P_OTHER_DESTROYED: if (other) { pc->destroyPhysicsWorld(other); other = nullptr; } else { ob.clear(); other = mk(*pc, ob); } break;
        case P_DEBUG_TOGGLE: dbg(!debug); break;
        case P_RAY: w->raycast(Ray(Vector3(-5, decimal(.5), 0), Vector3(8, decimal(.4), decimal(.1))), &rc); w->raycast(Ray(Vector3(0, 5, 0), Vector3(0, -5, 0)), &rc); break;
        case P_RAYBODY: for (auto* b : L) { RaycastInfo i; Ray ry(Vector3(-5, decimal(.5), 0), b->getTransform().getPosition() + Vector3(decimal(.1), 0, 0)); b->raycast(ry, i); if (b->getNbColliders()) b->getCollider(0)->raycast(ry, i); } break;
        case P_OVERLAP2: for (auto* a : L) for (auto* b : L) if (a != b) w->testOverlap(a, b); break; case P_OVERLAP1: for (auto* a : L) w->testOverlap(a, oc); break; case P_OVERLAP0: w->testOverlap(oc); break;
        case P_COLL2: for (auto* a : L) for (auto* b : L) if (a != b) w->testCollision(a, b, cc); break; case P_COLL1: for (auto* a : L) w->testCollision(a, cc); break; case P_COLL0: w->testCollision(cc); break;
        case P_POINT: for (auto* b : L) { b->testPointInside(Vector3(0, decimal(.5), 0)); if (b->getNbColliders()) b->getCollider(0)->testPointInside(b->getTransform().getPosition()); } break;
        case P_AABB: for (auto* b : L) { b->getAABB(); if (b->getNbColliders()) { b->getCollider(0)->getWorldAABB(); b->testAABBOverlap(AABB(Vector3(-1, -1, -1), Vector3(1, 1, 1))); } } break;
        case P_GETTERS: for (auto* b : L) { b->getTransform(); b->getLinearVelocity(); b->isSleeping(); b->getWorldPoint(Vector3(1, 2, 3)); b->getLocalVector(Vector3(1, 0, 0)); b->getForce(); b->getTorque(); for (uint32 k = 0; k < b->getNbColliders(); k++) { b->getCollider(k)->getLocalToWorldTransform(); b->getCollider(k)->getMaterial(); } } w->getNbRigidBodies(); w->getGravity(); w->getDebugRenderer().getLines(); break;
        case P_QMIX: for (auto* a : L) { w->testOverlap(a, oc); w->testCollision(a, cc); for (auto* b : L) if (a != b) { w->testCollision(a, b, cc); w->testOverlap(a, b); } } w->testCollision(cc); w->testOverlap(oc); break;
        case P_SHAPEQ: for (auto* b : L) for (uint32 k = 0; k < b->getNbColliders(); k++) { auto* s = b->getCollider(k)->getCollisionShape(); s->getLocalBounds(); s->getLocalInertiaTensor(2); s->getVolume(); s->computeTransformedAABB(b->getTransform()); } break; } }
    void step() { ev.clear(); w->update(decimal(1.0 / 60)); steps++; std::vector<double> f; for (size_t i = 0; i < B.size(); i++) if (alive[i]) { auto* b = B[i]; auto t = b->getTransform(); for (auto& q : {t.getPosition(), b->getLinearVelocity(), b->getAngularVelocity()}) { f.push_back(q.x); f.push_back(q.y); f.push_back(q.z); } auto q = t.getOrientation(); f.push_back(q.x); f.push_back(q.y); f.push_back(q.z); f.push_back(q.w); f.push_back(b->isSleeping()); } cmpAt = f.size(); if (listen) f.insert(f.end(), ev.begin(), ev.end()); frames.push_back(f); }
    size_t cmpAt = 0; bool plain = false;  // plain: bodies as createRigidBody() and addCollider() leave them
};
// program: settle n updates, op1, m updates, op2, rest; the perturbation at one of these points or before every update
static void program(Sim& s, int sc, int o1, int o2, int p, int where, int n1) { s.start(sc, p); int u = 0; auto pt = [&](int at) { if (where == at || where == 4) s.perturb(p); };
    pt(0); for (int i = 0; i < n1; i++, u++) { if (where == 5 || where == 4) s.perturb(p); s.step(); } pt(1); s.op(o1); pt(2); for (int i = 0; i < 3; i++, u++) { if (where == 5 || where == 4) s.perturb(p); s.step(); } pt(3); s.op(o2); if (where == 3) s.perturb(p); for (int i = 0; i < 12; i++, u++) { if (where == 5 || where == 4) s.perturb(p); s.step(); } }
static bool same(double a, double b) { return memcmp(&a, &b, 8) == 0; }
static void run(Run& r) { int sc = r.choose(NSC); int p = 1 + r.choose(NP - 1); int o1 = r.choose(NOP), o2 = r.choose(r.thorough ? NOP : 4); if (!r.thorough) { static const int q[] = {0, 2, 3, 6}; o2 = q[o2]; } bool once = p <= P_OTHER_BEFORE || p == P_DEBUG || p == P_NOLISTENER; int where = once ? 0 : r.choose(6); int n1 = r.thorough ? (r.flip() ? 1 : 6) : 4;
    MC_LOG(r, "%s; %d updates; %s; 3 updates; %s; 12 updates; with and without: %s (%s)", SCN[sc], n1, OPN[o1], OPN[o2], PN[p], once ? "throughout" : where == 0 ? "before the first update" : where == 1 ? "before the first call" : where == 2 ? "after the first call" : where == 3 ? "around the second call" : where == 4 ? "everywhere" : "before every update");
    struct Ref { std::vector<std::vector<double>> f; size_t n; }; static std::map<int, Ref> cache; int key = ((sc * 16 + o1) * 16 + o2) * 16 + n1; auto it = cache.find(key); if (it == cache.end()) { if (cache.size() > 400) cache.clear(); Sim a; program(a, sc, o1, o2, P_NONE, 9, n1); it = cache.insert({key, Ref{a.frames, 0}}).first; Sim b; program(b, sc, o1, o2, P_NONE, 9, n1); if (a.frames != b.frames) r.fail("nondeterministic", "two identical runs differ"); }
    Sim b; program(b, sc, o1, o2, p, where, n1); auto& A = it->second.f; r.transition(A.size() * 2); mc::Hash h; for (double x : A.back()) h.d(x); r.state(h.h);
    // queries update the list of pairs: one that is made between an update and a change by the user is a known finding
    bool query = (p >= P_OVERLAP2 && p <= P_COLL0) || p == P_QMIX; auto sig = [&](size_t u) { bool before = query && (where == 1 || where == 3 || where == 4) && (where == 3 ? o2 && (int)u >= n1 + 3 : where == 1 ? o1 && (int)u >= n1 : (o1 || o2) && (int)u >= n1); return before ? std::string("collision query between an update and a change") : std::string(PN[p]); };
    for (size_t u = 0; u < A.size(); u++) { size_t n = p == P_NOLISTENER ? b.frames[u].size() : A[u].size(); r.checked(n); if (b.frames[u].size() != n) r.fail(query ? sig(u).c_str() : "events", "update %zu: %zu values against %zu (other events)", u, A[u].size(), b.frames[u].size()); for (size_t k = 0; k < n; k++) if (!same(A[u][k], b.frames[u][k])) r.fail(sig(u).c_str(), "update %zu: value %zu (body %zu) is %.9g without and %.9g with it", u, k, k / 14, A[u][k], b.frames[u][k]); }
    MC_CHECK(r, b.al.error.empty(), "allocator", "%s", b.al.error.c_str()); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"bystanders", run, "13 scenes x pairs of 12 calls (second one of 4 in quick) x 25 kinds of bystander activity x 6 places; transforms, velocities, sleep states and events of every update compared bit for bit with the run without it"});
    return mc::main(c, v, propertyId("C10"), s, "the binary under test is compared with itself; other compilers or processors are not compared"); }
