// Lifetimes (C06): every history of creating, using and destroying objects that respects the ownership rules must be memory safe,
// release exactly what was allocated, hand out aligned, disjoint objects and give everything back to the user's allocator.
#include "rp.h"
#include "strictalloc.h"
using namespace rp3d;
namespace life { __attribute__((weak)) extern std::string error; __attribute__((weak)) bool active(); }
static volatile uint64_t gSink;
static bool life_() { return life::active != nullptr; }   // the slower of the two parts: one step less in some scenarios
template <class T> static void touch(const T& v) { const unsigned char* p = (const unsigned char*)&v; uint64_t s = 0; for (size_t i = 0; i < sizeof(T); i++) s += p[i]; gSink += s; }
static void touchBody(Body* b) { touch(b->getTransform()); touch(b->isActive()); touch(b->getEntity()); for (uint32 i = 0; i < b->getNbColliders(); i++) { Collider* c = b->getCollider(i); touch(c->getLocalToBodyTransform()); touch(c->getWorldAABB()); touch(c->getCollisionShape()->getName()); } }
struct Lis : EventListener { void onContact(const CollisionCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbContactPairs(); i++) { auto p = d.getContactPair(i); touch(p.getEventType()); touchBody(p.getBody1()); touchBody(p.getBody2()); touch(p.getCollider1()->getWorldAABB()); touch(p.getCollider2()->getMaterial().getBounciness()); for (uint32 k = 0; k < p.getNbContactPoints(); k++) { auto c = p.getContactPoint(k); touch(c.getWorldNormal()); touch(c.getPenetrationDepth()); } } }
    void onTrigger(const OverlapCallback::CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto p = d.getOverlappingPair(i); touch(p.getEventType()); touchBody(p.getBody1()); touchBody(p.getBody2()); touch(p.getCollider1()->getWorldAABB()); touch(p.getCollider2()->getIsTrigger()); } } };
struct OvCb : OverlapCallback { void onOverlap(CallbackData& d) override { for (uint32 i = 0; i < d.getNbOverlappingPairs(); i++) { auto p = d.getOverlappingPair(i); touchBody(p.getBody1()); touchBody(p.getBody2()); touch(p.getCollider1()->getWorldAABB()); } } };
struct CoCb : CollisionCallback { Lis l; void onContact(const CallbackData& d) override { l.onContact(d); } };
struct RaCb : RaycastCallback { decimal notifyRaycastHit(const RaycastInfo& i) override { touchBody(i.body); touch(i.collider->getWorldAABB()); return 1; } };
enum { SPHERE, BOX, CAPSULE, HULL, MESH, FIELD, NKIND };
struct World; struct Bod { RigidBody* b; World* w; std::vector<std::pair<Collider*, CollisionShape*>> c; int slot; };
struct Jnt { Joint* j; World* w; RigidBody *a, *b; };
struct World { PhysicsWorld* w; bool dead = false; };
struct Shp { CollisionShape* s; int kind; void* mesh; };
struct Sys { Run& r; StrictAllocator base; Lis lis; PhysicsCommon* pc = nullptr; std::vector<World*> ws; std::vector<Bod> bs; std::vector<Jnt> js; std::vector<Shp> ss; std::vector<std::pair<int, void*>> meshes; std::map<char*, std::pair<size_t, const char*>> objs; std::string hist;
    Sys(Run& r_) : r(r_) { if (life::active) life::error.clear(); pc = new PhysicsCommon(&base); }
    ~Sys() { delete pc; for (auto w : ws) delete w; }
    template <class T> T* own(T* p, const char* n) { char* a = (char*)p; r.checked(); MC_CHECK(r, p, "null", "%s: null returned after%s", n, hist.c_str()); MC_CHECK(r, ((uintptr_t)a & 15) == 0, "alignment", "%s at %p after%s", n, (void*)a, hist.c_str()); auto it = objs.upper_bound(a); if (it != objs.end()) MC_CHECK(r, a + sizeof(T) <= it->first, "overlap", "new %s overlaps a live %s after%s", n, it->second.second, hist.c_str()); if (it != objs.begin()) { --it; MC_CHECK(r, it->first + it->second.first <= a, "overlap", "new %s overlaps a live %s after%s", n, it->second.second, hist.c_str()); } objs[a] = {sizeof(T), n}; return p; }
    void gone(void* p) { objs.erase((char*)p); }
    void did(const char* f, ...) __attribute__((format(printf, 2, 3))) { char b[160]; va_list ap; va_start(ap, f); vsnprintf(b, 160, f, ap); va_end(ap); hist += " "; hist += b; hist += ";"; MC_LOG(r, "%s", b); r.transition(); }
    void ok() { r.checked(); if (!base.error.empty()) r.fail("base-allocator", "user's allocator: %s, after%s", base.error.c_str(), hist.c_str()); if (life::active && !life::error.empty()) r.fail("allocator", "%s, after%s", life::error.c_str(), hist.c_str()); }
    World* world() { World* w = new World; PhysicsWorld::WorldSettings s; w->w = own(pc->createPhysicsWorld(s), "PhysicsWorld"); w->w->setEventListener(&lis); ws.push_back(w); did("createPhysicsWorld"); return w; }
    void forgetBody(size_t i) { for (auto& c : bs[i].c) gone(c.first); gone(bs[i].b); for (size_t k = js.size(); k-- > 0;) if (js[k].a == bs[i].b || js[k].b == bs[i].b) { gone(js[k].j); js.erase(js.begin() + k); } bs.erase(bs.begin() + i); }
    void killWorld(World* w) { for (size_t i = bs.size(); i-- > 0;) if (bs[i].w == w) forgetBody(i); for (size_t i = js.size(); i-- > 0;) if (js[i].w == w) { gone(js[i].j); js.erase(js.begin() + i); } gone(w->w); did("destroyPhysicsWorld"); pc->destroyPhysicsWorld(w->w); ws.erase(std::find(ws.begin(), ws.end(), w)); delete w; }
    void body(World* w, BodyType t, int slot) { static const double X[] = {0, .7, -.7, 1.4, 0, .7}; Bod b; b.w = w; b.slot = slot; b.b = own(w->w->createRigidBody(Transform(Vector3(decimal(X[slot % 6]), decimal(.3 * (slot % 3) + (slot / 6) * 1.1), decimal(slot % 6 >= 4 ? .7 : 0)), Quaternion::identity())), "RigidBody"); b.b->setType(t); bs.push_back(b); did("body %zu (%s)", bs.size() - 1, t == BodyType::DYNAMIC ? "dynamic" : t == BodyType::STATIC ? "static" : "kinematic"); }
    void killBody(size_t i) { did("destroyRigidBody %zu", i); RigidBody* b = bs[i].b; World* w = bs[i].w; forgetBody(i); w->w->destroyRigidBody(b); }
    void* mesh(int kind) { std::vector<Message> ms; void* m = nullptr; if (kind == HULL) { float v[] = {.4f,.4f,.4f, .4f,-.4f,-.4f, -.4f,.4f,-.4f, -.4f,-.4f,.4f, .1f,.5f,.1f}; VertexArray a(v, 12, 5, VertexArray::DataType::VERTEX_FLOAT_TYPE); m = own(pc->createConvexMesh(a, ms), "ConvexMesh"); }
        if (kind == MESH) { float v[] = {-1,0,-1, 1,0,-1, 1,.2f,1, -1,0,1, 0,.4f,0}; unsigned ix[] = {0,4,1, 1,4,2, 2,4,3, 3,4,0}; TriangleVertexArray a(5, v, 12, 4, ix, 12, TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE); m = own(pc->createTriangleMesh(a, ms), "TriangleMesh"); }
        if (kind == FIELD) { float h[] = {0,.2f,0, .1f,.3f,0, 0,0,.2f}; m = own(pc->createHeightField(3, 3, h, HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, ms), "HeightField"); } meshes.push_back({kind, m}); did("mesh %zu (%s)", meshes.size() - 1, kind == HULL ? "hull" : kind == MESH ? "triangles" : "heights"); return m; }
    void killMesh(size_t i) { did("destroy mesh %zu", i); auto m = meshes[i]; gone(m.second); meshes.erase(meshes.begin() + i); if (m.first == HULL) pc->destroyConvexMesh((ConvexMesh*)m.second); else if (m.first == MESH) pc->destroyTriangleMesh((TriangleMesh*)m.second); else pc->destroyHeightField((HeightField*)m.second); }
    bool meshUsed(void* m) { for (auto& s : ss) if (s.mesh == m) return true; return false; } bool shapeUsed(CollisionShape* s) { for (auto& b : bs) for (auto& c : b.c) if (c.second == s) return true; return false; }
    void shape(int kind, void* m = nullptr) { Shp s; s.kind = kind; s.mesh = nullptr; if (kind >= HULL && !m) m = mesh(kind); s.mesh = m; switch (kind) { case SPHERE: s.s = own(pc->createSphereShape(decimal(.5)), "SphereShape"); break; case BOX: s.s = own(pc->createBoxShape(Vector3(decimal(.5), decimal(.4), decimal(.5))), "BoxShape"); break; case CAPSULE: s.s = own(pc->createCapsuleShape(decimal(.4), decimal(.6)), "CapsuleShape"); break; case HULL: s.s = own(pc->createConvexMeshShape((ConvexMesh*)m), "ConvexMeshShape"); break; case MESH: s.s = own(pc->createConcaveMeshShape((TriangleMesh*)m), "ConcaveMeshShape"); break; default: s.s = own(pc->createHeightFieldShape((HeightField*)m), "HeightFieldShape"); } ss.push_back(s); did("shape %zu (kind %d)", ss.size() - 1, kind); }
    void killShape(size_t i) { did("destroy shape %zu", i); Shp s = ss[i]; gone(s.s); ss.erase(ss.begin() + i); switch (s.kind) { case SPHERE: pc->destroySphereShape((SphereShape*)s.s); break; case BOX: pc->destroyBoxShape((BoxShape*)s.s); break; case CAPSULE: pc->destroyCapsuleShape((CapsuleShape*)s.s); break; case HULL: pc->destroyConvexMeshShape((ConvexMeshShape*)s.s); break; case MESH: pc->destroyConcaveMeshShape((ConcaveMeshShape*)s.s); break; default: pc->destroyHeightFieldShape((HeightFieldShape*)s.s); } }
    CollisionShape* shapeOf(int kind) { for (auto& s : ss) if (s.kind == kind) return s.s; shape(kind); return ss.back().s; }
    void collider(size_t i, CollisionShape* s) { Collider* c = own(bs[i].b->addCollider(s, Transform(Vector3(0, decimal(.1) * bs[i].c.size(), 0), Quaternion::identity())), "Collider"); bs[i].c.push_back({c, s}); did("addCollider to %zu", i); }
    void dropCollider(size_t i, size_t k) { did("removeCollider %zu of %zu", k, i); Collider* c = bs[i].c[k].first; gone(c); bs[i].c.erase(bs[i].c.begin() + k); bs[i].b->removeCollider(c); }
    void joint(size_t a, size_t b, int kind) { Jnt j; j.w = bs[a].w; j.a = bs[a].b; j.b = bs[b].b; Vector3 an(decimal(.3), 0, 0), ax(0, 1, 0); switch (kind) { case 0: { BallAndSocketJointInfo f(j.a, j.b, an); j.j = own((BallAndSocketJoint*)j.w->w->createJoint(f), "BallAndSocketJoint"); break; } case 1: { HingeJointInfo f(j.a, j.b, an, ax); f.isCollisionEnabled = false; j.j = own((HingeJoint*)j.w->w->createJoint(f), "HingeJoint"); break; } case 2: { SliderJointInfo f(j.a, j.b, an, ax); f.isCollisionEnabled = false; j.j = own((SliderJoint*)j.w->w->createJoint(f), "SliderJoint"); break; } default: { FixedJointInfo f(j.a, j.b, an); j.j = own((FixedJoint*)j.w->w->createJoint(f), "FixedJoint"); } } js.push_back(j); did("joint %zu of kind %d between %zu and %zu", js.size() - 1, kind, a, b); }
    void killJoint(size_t i) { did("destroyJoint %zu", i); Jnt j = js[i]; gone(j.j); js.erase(js.begin() + i); j.w->w->destroyJoint(j.j); }
    void update(World* w, int n = 1) { did(n > 1 ? "%d updates" : "update", n); for (int i = 0; i < n; i++) w->w->update(decimal(1 / 60.)); }
    void query(World* w) { did("queries"); OvCb o; CoCb c; RaCb a; w->w->testOverlap(o); w->w->testCollision(c); w->w->raycast(Ray(Vector3(-3, decimal(.2), 0), Vector3(3, decimal(.2), 0)), &a); std::vector<Bod*> q; for (auto& b : bs) if (b.w == w) q.push_back(&b); if (q.size() >= 2) { touch(w->w->testOverlap(q[0]->b, q[1]->b)); w->w->testCollision(q[0]->b, q[1]->b, c); } if (q.size()) { w->w->testCollision(q[0]->b, c); w->w->testOverlap(q[0]->b, o); } }
    void look() { for (auto& b : bs) { touchBody(b.b); touch(b.b->getMass()); touch(b.b->getLinearVelocity()); MC_CHECK(r, b.b->getNbColliders() == b.c.size(), "colliders", "body has %u colliders after%s", b.b->getNbColliders(), hist.c_str()); } for (auto& j : js) { touch(j.j->getReactionForce(decimal(1 / 60.))); MC_CHECK(r, j.j->getBody1() == j.a && j.j->getBody2() == j.b, "joint-bodies", "joint with wrong bodies after%s", hist.c_str()); } for (auto& s : ss) touch(s.s->getLocalBounds()); for (auto w : ws) { touch(w->w->getNbRigidBodies()); touch(w->w->getName()); } }
    // the end: everything destroyed one by one, or only the worlds, or nothing but PhysicsCommon
    void finish(int how) { if (how == 1) { while (bs.size()) killBody(how == 1 ? 0 : bs.size() - 1); while (ws.size()) killWorld(ws.back()); while (ss.size()) killShape(0); while (meshes.size()) killMesh(0); } else if (how == 2) { while (ws.size()) killWorld(ws[0]); while (ss.size()) killShape(ss.size() - 1); } ok(); did("delete PhysicsCommon"); delete pc; pc = nullptr; ok(); MC_CHECK(r, base.live == 0, "leak", "%ld blocks not returned to the user's allocator, after%s", base.live, hist.c_str()); }
};
typedef std::pair<int, std::function<void()>> Op;
static void drive(Run& r, Sys& s, int depth, std::function<void(std::vector<std::function<void()>>&)> menu) { for (int d = 0; d < depth; d++) { std::vector<std::function<void()>> m; menu(m); m.push_back(nullptr); int k = r.choose((int)m.size()); if (!m[k]) break; m[k](); s.ok(); s.look(); s.ok(); mc::Hash h; h.s(r.scenario); h.u(s.ws.size()); for (auto& b : s.bs) { h.u(b.c.size()); h.u(b.b->isActive()); h.u((int)b.b->getType()); for (auto& c : b.c) h.u((uint64_t)c.second->getName()); } for (auto& j : s.js) h.u((int)j.j->getType()); for (auto& q : s.ss) h.u(q.kind); h.u(s.meshes.size()); r.state(h.h); } s.finish(r.choose(3)); }
// bodies and colliders of every shape, in contact
static void bodies(Run& r) { Sys s(r); World* w = s.world(); int init = r.choose(5); s.body(w, BodyType::DYNAMIC, 0); s.collider(0, s.shapeOf(init == 0 ? SPHERE : init == 1 ? CAPSULE : init == 2 ? HULL : BOX)); s.body(w, init >= 3 ? BodyType::STATIC : BodyType::DYNAMIC, 1); s.collider(1, s.shapeOf(init == 3 ? MESH : init == 4 ? FIELD : BOX)); if (life_() && !r.thorough ? true : r.flip()) s.update(w, 2); s.ok(); w->w->setIsDebugRenderingEnabled(init == 2);
    drive(r, s, r.thorough ? 5 : 4, [&](std::vector<std::function<void()>>& m) { m.push_back([&] { s.update(w); }); m.push_back([&] { s.query(w); }); if (s.bs.size() < 3) { m.push_back([&] { s.body(w, BodyType::DYNAMIC, 2); s.collider(s.bs.size() - 1, s.shapeOf(BOX)); }); } for (size_t i = 0; i < s.bs.size(); i++) { m.push_back([&, i] { s.killBody(i); }); if (s.bs[i].c.size() < 2) m.push_back([&, i] { s.collider(i, s.shapeOf(i ? CAPSULE : SPHERE)); }); if (s.bs[i].c.size()) { m.push_back([&, i] { s.dropCollider(i, 0); }); if (!s.bs[i].b->isActive() || i == 0) m.push_back([&, i] { s.did("setIsActive"); s.bs[i].b->setIsActive(!s.bs[i].b->isActive()); }); } if (i < 2) m.push_back([&, i] { s.did("setType"); auto t = s.bs[i].b->getType(); s.bs[i].b->setType(t == BodyType::DYNAMIC ? BodyType::STATIC : t == BodyType::STATIC ? BodyType::KINEMATIC : BodyType::DYNAMIC); }); } if (s.bs.size() && s.bs[0].c.size()) m.push_back([&] { s.did("setIsTrigger"); auto c = s.bs[0].c[0].first; if (c->getIsTrigger()) c->setIsTrigger(false); else { c->setIsSimulationCollider(false); c->setIsTrigger(true); } }); }); }
// joints of every kind among three bodies
static void joints(Run& r) { Sys s(r); World* w = s.world(); int n = 3; for (int i = 0; i < n; i++) { s.body(w, i == 2 && r.flip() ? BodyType::STATIC : BodyType::DYNAMIC, i); s.collider(i, s.shapeOf(BOX)); } if (life_() && !r.thorough ? true : r.flip()) s.update(w);
    drive(r, s, r.thorough ? 5 : 4, [&](std::vector<std::function<void()>>& m) { m.push_back([&] { s.update(w); }); if (s.js.size() < 3) for (size_t a = 0; a < s.bs.size(); a++) for (size_t b = 0; b < s.bs.size(); b++) if (a < b || (a == 2 && b == 0)) for (int k = 0; k < 4; k++) if (s.js.empty() || k == (int)s.js.size()) m.push_back([&, a, b, k] { s.joint(a, b, k); }); for (size_t i = 0; i < s.js.size(); i++) m.push_back([&, i] { s.killJoint(i); }); for (size_t i = 0; i < s.bs.size(); i++) { m.push_back([&, i] { s.killBody(i); }); if (i < 1) { m.push_back([&, i] { s.did("setIsActive"); s.bs[i].b->setIsActive(!s.bs[i].b->isActive()); }); m.push_back([&, i] { s.did("setIsSleeping"); s.bs[i].b->setIsSleeping(!s.bs[i].b->isSleeping()); }); } } if (s.bs.size() < 3) m.push_back([&] { s.body(w, BodyType::DYNAMIC, 2); s.collider(s.bs.size() - 1, s.shapeOf(SPHERE)); }); }); }
// shapes and meshes: created, shared, used and destroyed in any order
static void assets(Run& r) { Sys s(r); World* w = s.world(); int kind = r.choose(NKIND); s.body(w, BodyType::STATIC, 0); s.body(w, BodyType::DYNAMIC, 1); s.collider(1, s.shapeOf(SPHERE)); bool via = r.flip(); if (via) { s.shape(kind); s.collider(0, s.ss.back().s); s.update(w); }
    drive(r, s, r.thorough ? 6 : life_() ? 4 : 5, [&](std::vector<std::function<void()>>& m) { m.push_back([&] { s.update(w); }); if (s.ss.size() < 4) { m.push_back([&] { s.shape(kind); }); for (auto& q : s.meshes) { void* p = q.second; int k = q.first; m.push_back([&, p, k] { s.shape(k, p); }); } } if (s.meshes.size() < 2 && kind >= HULL) m.push_back([&] { s.mesh(kind); }); for (size_t i = 0; i < s.ss.size(); i++) { if (!s.shapeUsed(s.ss[i].s)) { m.push_back([&, i] { s.killShape(i); }); if (s.bs.size() && s.bs[0].c.size() < 2) m.push_back([&, i] { s.collider(0, s.ss[i].s); }); } } for (size_t i = 0; i < s.meshes.size(); i++) if (!s.meshUsed(s.meshes[i].second)) m.push_back([&, i] { s.killMesh(i); }); if (s.bs.size()) { m.push_back([&] { s.killBody(0); }); if (s.bs[0].c.size()) m.push_back([&] { s.dropCollider(0, 0); }); } }); }
// several worlds and the objects in them
static void worlds(Run& r) { Sys s(r); auto fill = [&](World* w) { size_t n = s.bs.size(); s.body(w, BodyType::DYNAMIC, 0); s.collider(n, s.shapeOf(BOX)); s.body(w, BodyType::STATIC, 1); s.collider(n + 1, s.shapeOf(MESH)); }; fill(s.world());
    drive(r, s, r.thorough ? 6 : 5, [&](std::vector<std::function<void()>>& m) { if (s.ws.size() < 2) m.push_back([&] { s.world(); }); for (size_t i = 0; i < s.ws.size(); i++) { World* w = s.ws[i]; m.push_back([&, w] { s.update(w, 2); }); m.push_back([&, w] { s.killWorld(w); }); if (s.bs.size() < 4) m.push_back([&, w] { fill(w); }); m.push_back([&, w] { s.did("debug rendering"); w->w->setIsDebugRenderingEnabled(!w->w->getIsDebugRenderingEnabled()); w->w->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::COLLIDER_AABB, true); w->w->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::COLLISION_SHAPE, true); w->w->getDebugRenderer().setIsDebugItemDisplayed(DebugRenderer::DebugItem::CONTACT_POINT, true); }); m.push_back([&, w] { s.query(w); }); } if (s.bs.size()) m.push_back([&] { s.killBody(0); }); if (s.bs.size() >= 2 && s.bs[0].w == s.bs[1].w && s.js.size() < 2) m.push_back([&] { s.joint(0, 1, (int)s.js.size() * 2); }); }); }
// many objects: growth and shrinking of every table
static void growth(Run& r) { Sys s(r); World* w = s.world(); static const int N[] = {3, 9, 10, 11, 21, 40, 90}; int n = N[r.choose(r.thorough ? 7 : 6)], pattern = r.choose(5), joints = r.choose(3), upd = r.choose(3), per = 1 + r.choose(2); for (int i = 0; i < n; i++) { s.body(w, i % 7 == 6 ? BodyType::STATIC : BodyType::DYNAMIC, i); for (int k = 0; k < per; k++) s.collider(i, s.shapeOf(i % 5 == 4 && k == 0 ? SPHERE : i % 7 == 6 ? MESH : i % 3 ? BOX : CAPSULE)); if (upd == 2 && i % 4 == 3) s.update(w); } if (joints) for (int i = 0; i + joints < n; i += joints) s.joint(i, i + joints, i % 4); s.ok(); if (upd) s.update(w, 2); s.query(w); s.ok();
    int kill = pattern == 4 ? n : n - 2; for (int k = 0; k < kill && s.bs.size(); k++) { size_t i = pattern == 0 ? 0 : pattern == 1 ? s.bs.size() - 1 : pattern == 2 ? s.bs.size() / 2 : pattern == 3 ? (k * 7) % s.bs.size() : (k & 1 ? 0 : s.bs.size() - 1); s.killBody(i); if (upd && k % 3 == 2) s.update(w); s.ok(); } s.look(); for (int i = 0; i < 3; i++) { s.body(w, BodyType::DYNAMIC, i); s.collider(s.bs.size() - 1, s.shapeOf(BOX)); } s.update(w, 2); s.ok(); s.look(); mc::Hash h; h.u(n); h.u(pattern); h.u(joints); h.u(upd); h.u(per); r.state(h.h); s.finish(r.choose(3)); }
// a body moving over a concave shape: the per-triangle data appears and disappears
static void travel(Run& r) { Sys s(r); World* w = s.world(); s.body(w, BodyType::STATIC, 0); s.collider(0, s.shapeOf(r.flip() ? MESH : FIELD)); s.body(w, BodyType::DYNAMIC, 1); s.collider(1, s.shapeOf(r.pick(std::vector<int>{SPHERE, BOX, CAPSULE, HULL}))); s.body(w, BodyType::DYNAMIC, 3); s.collider(2, s.shapeOf(BOX)); int len = r.thorough ? 6 : life_() ? 4 : 5; static const double P[5][3] = {{-.6,.3,-.6}, {.6,.4,.6}, {0,.5,0}, {0,5,0}, {1.4,.3,0}}; for (int i = 0; i < len; i++) { int k = r.choose(6); if (k < 5) { s.did("move to %d", k); s.bs[1].b->setTransform(Transform(Vector3(decimal(P[k][0]), decimal(P[k][1]), decimal(P[k][2])), Quaternion::identity())); } else if (s.bs.size() > 2) s.killBody(2); s.update(w); s.ok(); if (i & 1) s.query(w); s.ok(); } mc::Hash h; h.s(s.hist.c_str()); r.state(h.h); s.finish(r.choose(3)); }
int main(int argc, char** argv) { return mc::main(argc, argv, propertyId("C06"), {
    {"bodies", bodies, "all sequences of 4 (thorough 5) operations on up to three touching bodies: create, destroy, add and remove colliders, activate, change type, make a trigger, update, queries; from 10 starting worlds with every shape kind; 3 ways to end", 1},
    {"joints", joints, "all sequences of 4 (thorough 5) operations on three bodies: joints of every kind between any two, destroy joint, destroy body, deactivate, sleep, update; 3 ways to end", 1},
    {"assets", assets, "all sequences of 5 (thorough 6) operations on the shapes and meshes of one kind (each of 6): create, share, attach, detach, destroy when unused; 3 ways to end", 1},
    {"worlds", worlds, "all sequences of 5 (thorough 6) operations on up to two worlds with bodies, joints, debug rendering and queries, destroyed full or empty; 3 ways to end", 1},
    {"growth", growth, "3 to 40 (thorough 90) bodies with 1 or 2 colliders, chains of joints, destroyed in 5 orders with updates in between", 1},
    {"travel", travel, "all sequences of 5 (thorough 6) moves of a body over a triangle mesh or height field with updates and queries", 1},
}, "Ownership rules respected by every history: shapes outlive the colliders that use them, meshes the shapes; pointers are not used after destruction\nPart life: the pool, heap and frame allocators hand every request to malloc() under AddressSanitizer, so that every object has its own lifetime; part s: the real allocators over a strict user allocator. At the quick tier part life makes one step less in assets and travel, and always updates the starting world of bodies and joints"); }
