// World model: drives the real PhysicsWorld and keeps, next to it, the abstract state every API call is
// supposed to produce (bodies, colliders, flags, joints, contact episodes).  update() and the queries are
// compared against brute-force geometry over that abstract state.
#pragma once
#include "rp.h"
#include "geo.h"
using rp3d::BodyType; using rp3d::RigidBody; using rp3d::Collider; using rp3d::CollisionShape;

struct Shapes {                        // lazily created shapes with their oracle solids
    rp3d::PhysicsCommon& pc; Shapes(rp3d::PhysicsCommon& p) : pc(p) {}
    std::map<int, CollisionShape*> made; std::map<int, std::vector<geo::Solid>> parts;
    std::vector<float> pv, hv; std::vector<unsigned> pi; std::vector<float> plateV; std::vector<unsigned> plateI;
    static bool concave(int id) { return id == 4 || id == 5; }
    CollisionShape* get(int id) {
        auto it = made.find(id); if (it != made.end()) return it->second; CollisionShape* s = nullptr; std::vector<geo::Solid> q; std::vector<rp3d::Message> msg;
        switch (id) {
        case 0: s = pc.createSphereShape(decimal(0.5)); q = {geo::sphere(0.5)}; break;
        case 1: s = pc.createBoxShape(Vector3(decimal(0.5), decimal(0.5), decimal(0.5))); q = {geo::box(.5, .5, .5)}; break;
        case 2: s = pc.createCapsuleShape(decimal(0.5), decimal(0.6)); q = {geo::capsule(.5, .6)}; break;
        case 3: { pv = {.6f,0,0, -.6f,0,0, 0,.6f,0, 0,-.6f,0, 0,0,.6f, 0,0,-.6f};
            rp3d::VertexArray va(pv.data(), 3 * sizeof(float), 6, rp3d::VertexArray::DataType::VERTEX_FLOAT_TYPE); auto* m = pc.createConvexMesh(va, msg); if (!m) { fprintf(stderr, "convex mesh rejected\n"); abort(); }
            s = pc.createConvexMeshShape(m); std::vector<geo::V> v; for (int i = 0; i < 6; i++) v.push_back(geo::V(pv[3*i], pv[3*i+1], pv[3*i+2]));
            q = {geo::polytope(v, {{0,2,4},{2,1,4},{1,3,4},{3,0,4},{2,0,5},{1,2,5},{3,1,5},{0,3,5}})}; break; }
        case 4: { plateV = {-3,0,-3, 3,0,-3, 3,0,3, -3,0,3}; plateI = {0,2,1, 0,3,2};
            rp3d::TriangleVertexArray tv(4, plateV.data(), 3 * sizeof(float), 2, plateI.data(), 3 * sizeof(unsigned), rp3d::TriangleVertexArray::VertexDataType::VERTEX_FLOAT_TYPE, rp3d::TriangleVertexArray::IndexDataType::INDEX_INTEGER_TYPE);
            auto* m = pc.createTriangleMesh(tv, msg); if (!m) { fprintf(stderr, "triangle mesh rejected\n"); abort(); } s = pc.createConcaveMeshShape(m);
            auto V = [&](int i) { return geo::V(plateV[3*i], plateV[3*i+1], plateV[3*i+2]); }; q = {geo::triangle(V(0), V(2), V(1)), geo::triangle(V(0), V(3), V(2))}; break; }
        case 5: { hv.assign(9, 0.f); auto* h = pc.createHeightField(3, 3, hv.data(), rp3d::HeightField::HeightDataType::HEIGHT_FLOAT_TYPE, msg); if (!h) { fprintf(stderr, "height field rejected\n"); abort(); } s = pc.createHeightFieldShape(h, Vector3(3, 1, 3));
            for (int x = 0; x < 2; x++) for (int z = 0; z < 2; z++) { auto P = [&](int a, int b) { return geo::V((a - 1) * 3.0, 0, (b - 1) * 3.0); }; q.push_back(geo::triangle(P(x, z), P(x, z + 1), P(x + 1, z))); q.push_back(geo::triangle(P(x + 1, z), P(x, z + 1), P(x + 1, z + 1))); } break; }
        case 6: s = pc.createSphereShape(decimal(2.0)); q = {geo::sphere(2.0)}; break;
        case 7: s = pc.createBoxShape(Vector3(3, decimal(0.5), 3)); q = {geo::box(3, .5, 3)}; break;
        }
        made[id] = s; parts[id] = q; size[id] = 1; return s;
    }
    std::map<int, double> size;        // every solid is centred at the origin of its shape: resizing scales it
    void resize(int id, double k) { CollisionShape* s = get(id); decimal f = (decimal)k, h = decimal(.5) * f; double q = k / size[id]; for (auto& p : parts[id]) { for (auto& v : p.v) v = v * q; p.radius *= q; p.h *= q; p.half = p.half * q; } size[id] = k;
        switch (id) { case 0: static_cast<rp3d::SphereShape*>(s)->setRadius(h); break; case 6: static_cast<rp3d::SphereShape*>(s)->setRadius(2 * f); break; case 1: static_cast<rp3d::BoxShape*>(s)->setHalfExtents(Vector3(h, h, h)); break; case 7: static_cast<rp3d::BoxShape*>(s)->setHalfExtents(Vector3(3 * f, h, 3 * f)); break;
            case 2: static_cast<rp3d::CapsuleShape*>(s)->setRadius(h); static_cast<rp3d::CapsuleShape*>(s)->setHeight(decimal(.6) * f); break; case 3: static_cast<rp3d::ConvexMeshShape*>(s)->setScale(Vector3(f, f, f)); break; case 4: static_cast<rp3d::ConcaveMeshShape*>(s)->setScale(Vector3(f, f, f)); break; default: static_cast<rp3d::HeightFieldShape*>(s)->setScale(Vector3(3 * f, f, 3 * f)); } }
};

enum Ev { NONE = 0, START = 1, STAY = 2, EXIT = 3 };
static const char* EVN[] = {"none", "Start", "Stay", "Exit"};
typedef std::pair<Collider*, Collider*> CP;
inline CP cp(Collider* a, Collider* b) { return a < b ? CP(a, b) : CP(b, a); }

struct Col { Collider* c; int id; int shape; Transform local; unsigned short cat = 1, mask = 0xffff; bool trig = false, sim = true, query = true; decimal bounce = 0.5f; void* ud = nullptr; };
struct Bod { RigidBody* b = nullptr; bool exists = false, active = true, allowSleep = true, gravity = true; BodyType type = BodyType::DYNAMIC; Transform set; std::vector<Col> cols; decimal lindamp = 0, mass = 1; void* ud = nullptr; };
struct Jnt { rp3d::Joint* j; int a, b; bool coll; int kind; };
struct Rec { bool trigger; int type; };

struct WM : rp3d::EventListener {
    Run& r; PageAllocator al; std::unique_ptr<rp3d::PhysicsCommon> pc; std::unique_ptr<Shapes> sh; rp3d::PhysicsWorld* w = nullptr;
    std::vector<Bod> B; std::vector<Jnt> J; std::map<CP, bool> touch, chan;   /* channel of the last report */ std::map<CP, Rec> evs; std::map<CP, int> points; std::string cbErr; bool locked = true; int nextId = 1; int updates = 0;
    double tol = 0.01; bool distinct = false; int serial = 0;   // distinct: every object gets parameter values of its own
    WM(Run& run, rp3d::PhysicsWorld::WorldSettings st = settings()) : r(run) { pc.reset(new rp3d::PhysicsCommon(&al)); sh.reset(new Shapes(*pc)); w = pc->createPhysicsWorld(st); w->setEventListener(this); }
    ~WM() { pc.reset(); }
    static rp3d::PhysicsWorld::WorldSettings settings() { rp3d::PhysicsWorld::WorldSettings s; s.gravity = Vector3(0, 0, 0); s.defaultTimeBeforeSleep = 1e6f; return s; }
    // --- callbacks only record (a failure must not unwind through the library)
    const Col* findC(const Collider* c, int* body = nullptr) const { for (size_t i = 0; i < B.size(); i++) if (B[i].exists) for (auto& k : B[i].cols) if (k.c == c) { if (body) *body = (int)i; return &k; } return nullptr; }
    void rec(bool trig, int type, Collider* c1, Collider* c2, void* b1, void* b2, int npts) {
        int i1, i2; const Col *k1 = findC(c1, &i1), *k2 = findC(c2, &i2);
        if (!k1 || !k2) { cbErr = "callback names a collider that does not exist"; return; }
        if (B[i1].b != b1 || B[i2].b != b2) { cbErr = "callback's bodies are not the owners of its colliders"; return; }
        if (evs.count(cp(c1, c2))) { cbErr = "pair c" + std::to_string(k1->id) + "/c" + std::to_string(k2->id) + " reported twice in one update"; return; }
        evs[cp(c1, c2)] = {trig, type}; points[cp(c1, c2)] = npts; }
    void onContact(const rp3d::CollisionCallback::CallbackData& d) override {
        typedef rp3d::CollisionCallback::ContactPair P;
        for (unsigned p = 0; p < d.getNbContactPairs(); p++) { auto c = d.getContactPair(p); int t = c.getEventType() == P::EventType::ContactStart ? START : c.getEventType() == P::EventType::ContactStay ? STAY : EXIT;
            rec(false, t, c.getCollider1(), c.getCollider2(), c.getBody1(), c.getBody2(), c.getNbContactPoints());
            for (unsigned k = 0; k < c.getNbContactPoints(); k++) { auto q = c.getContactPoint(k); if (!(std::fabs(q.getWorldNormal().length() - 1) < 1e-3) || !(q.getPenetrationDepth() >= 0)) cbErr = "contact point with a non-unit normal or negative depth"; } } }
    void onTrigger(const rp3d::OverlapCallback::CallbackData& d) override {
        typedef rp3d::OverlapCallback::OverlapPair P;
        for (unsigned p = 0; p < d.getNbOverlappingPairs(); p++) { auto c = d.getOverlappingPair(p); int t = c.getEventType() == P::EventType::OverlapStart ? START : c.getEventType() == P::EventType::OverlapStay ? STAY : EXIT;
            rec(true, t, c.getCollider1(), c.getCollider2(), c.getBody1(), c.getBody2(), -1); } }
    // --- API operations, mirrored in the model
    static Transform at(double x, double y = 0, double z = 0) { return Transform(Vector3((decimal)x, (decimal)y, (decimal)z), Quaternion::identity()); }
    int addBody(BodyType t, const Transform& tr, int shape = -1) { Bod b; b.b = w->createRigidBody(tr); b.exists = true; b.set = tr; b.type = BodyType::DYNAMIC; B.push_back(b); int i = (int)B.size() - 1; if (distinct) own(B[i]);
        if (locked) { b.b->setLinearLockAxisFactor(Vector3(0, 0, 0)); b.b->setAngularLockAxisFactor(Vector3(0, 0, 0)); }
        if (t != BodyType::DYNAMIC) setType(i, t); if (shape >= 0) addCol(i, shape); return i; }
    void setType(int i, BodyType t) { B[i].b->setType(t); B[i].type = t; }
    int addCol(int i, int shape, const Transform& local = Transform::identity()) { Col c; c.c = B[i].b->addCollider(sh->get(shape), local); c.id = nextId++; c.shape = shape; c.local = local; if (distinct) { decimal q = (decimal)(++serial); c.bounce = q / 512; auto& m = c.c->getMaterial(); m.setBounciness(c.bounce); m.setFrictionCoefficient(q / 32); m.setMassDensity(1 + q / 8); c.ud = (char*)nullptr + serial; c.c->setUserData(c.ud); } B[i].cols.push_back(c); return (int)B[i].cols.size() - 1; }
    void roleChanged(Collider* c) { for (auto it = chan.begin(); it != chan.end();) if (it->first.first == c || it->first.second == c) it = chan.erase(it); else ++it; }
    void forget(Collider* c) { roleChanged(c); for (auto it = touch.begin(); it != touch.end();) if (it->first.first == c || it->first.second == c) it = touch.erase(it); else ++it; }
    void removeCol(int i, int k) { forget(B[i].cols[k].c); B[i].b->removeCollider(B[i].cols[k].c); B[i].cols.erase(B[i].cols.begin() + k); }
    void destroyBody(int i) { for (auto& c : B[i].cols) forget(c.c); for (size_t j = 0; j < J.size();) if (J[j].a == i || J[j].b == i) J.erase(J.begin() + j); else j++; w->destroyRigidBody(B[i].b); B[i].exists = false; B[i].cols.clear(); B[i].b = nullptr; }
    void setActive(int i, bool a) { if (!a) for (auto& c : B[i].cols) forget(c.c); B[i].b->setIsActive(a); B[i].active = a; }
    void move(int i, const Transform& t) { B[i].b->setTransform(t); B[i].set = t; }
    int addJoint(int a, int b, bool coll, int kind = 0) { Vector3 an = (B[a].b->getTransform().getPosition() + B[b].b->getTransform().getPosition()) * decimal(0.5); rp3d::Joint* j = nullptr;
        if (kind == 0) { rp3d::BallAndSocketJointInfo i(B[a].b, B[b].b, an); i.isCollisionEnabled = coll; j = w->createJoint(i); }
        else if (kind == 1) { rp3d::FixedJointInfo i(B[a].b, B[b].b, an); i.isCollisionEnabled = coll; j = w->createJoint(i); }
        else if (kind == 2) { rp3d::HingeJointInfo i(B[a].b, B[b].b, an, Vector3(0, 1, 0)); i.isCollisionEnabled = coll; j = w->createJoint(i); }
        else { rp3d::SliderJointInfo i(B[a].b, B[b].b, an, Vector3(1, 0, 0)); i.isCollisionEnabled = coll; j = w->createJoint(i); }
        if (distinct) { decimal q = (decimal)(++serial); if (kind == 0) { auto* k = static_cast<rp3d::BallAndSocketJoint*>(j); k->setConeLimitHalfAngle(q / 16); if (serial % 2) k->enableConeLimit(true); } if (kind == 2) { auto* k = static_cast<rp3d::HingeJoint*>(j); k->setMinAngleLimit(-q / 16); k->setMaxAngleLimit(q / 17); k->setMotorSpeed(q); k->setMaxMotorTorque(q / 3); k->enableLimit(serial % 2); k->enableMotor(serial % 3 == 0); }
            if (kind == 3) { auto* k = static_cast<rp3d::SliderJoint*>(j); k->setMinTranslationLimit(-q); k->setMaxTranslationLimit(q + 1); k->setMotorSpeed(q); k->setMaxMotorForce(q / 3); k->enableLimit(serial % 2); k->enableMotor(serial % 3 == 0); } }
        J.push_back({j, a, b, coll, kind}); return (int)J.size() - 1; }
    void removeJoint(int k) { w->destroyJoint(J[k].j); J.erase(J.begin() + k); }
    void own(Bod& b) { decimal q = (decimal)(++serial); RigidBody* p = b.b; b.mass = 1 + q / 4; p->setMass(b.mass); b.lindamp = q / 128; p->setLinearDamping(b.lindamp); p->setAngularDamping(q / 100); p->setLocalInertiaTensor(Vector3(1 + q / 10, 2 + q / 11, 3 + q / 12)); p->setLocalCenterOfMass(Vector3(q / 1000, q / 1100, q / 1200));
        b.ud = (char*)nullptr + serial; p->setUserData(b.ud); p->applyWorldForceAtCenterOfMass(Vector3(q, q + 1, q + 2)); p->applyWorldTorque(Vector3(q + 3, q + 4, q + 5)); }
    // --- everything the getters of every object say, to see whether an operation on one object changes another (C18)
    struct Snap { std::string who; int body; std::vector<std::pair<const char*, double>> v; };
    std::map<const void*, Snap> snap() const { std::map<const void*, Snap> out;
        for (size_t i = 0; i < B.size(); i++) if (B[i].exists) { const RigidBody* p = B[i].b; Snap s; s.who = "b" + std::to_string(i); s.body = (int)i; auto a = [&](const char* n, double x) { s.v.push_back({n, x}); }; auto v3 = [&](const char* n, const Vector3& x) { a(n, x.x); a(n, x.y); a(n, x.z); };
            a("mass", p->getMass()); a("linear damping", p->getLinearDamping()); a("angular damping", p->getAngularDamping()); v3("inertia", p->getLocalInertiaTensor()); v3("centre of mass", p->getLocalCenterOfMass()); v3("linear lock", p->getLinearLockAxisFactor()); v3("angular lock", p->getAngularLockAxisFactor());
            a("gravity", p->isGravityEnabled()); a("allowed to sleep", p->isAllowedToSleep()); a("type", (int)p->getType()); a("debug", p->isDebugEnabled()); a("user data", (double)(intptr_t)p->getUserData()); v3("*force", p->getForce()); v3("*torque", p->getTorque()); v3("*linear velocity", p->getLinearVelocity()); v3("*angular velocity", p->getAngularVelocity()); v3("*position", p->getTransform().getPosition());
            out[p] = s;
            for (auto& c : B[i].cols) { Collider* k = c.c; s = Snap(); s.who = "c" + std::to_string(c.id); s.body = (int)i; auto& m = k->getMaterial(); a("category", k->getCollisionCategoryBits()); a("mask", k->getCollideWithMaskBits()); a("trigger", k->getIsTrigger()); a("simulation", k->getIsSimulationCollider()); a("query", k->getIsWorldQueryCollider()); a("bounciness", m.getBounciness()); a("friction", m.getFrictionCoefficient()); a("density", m.getMassDensity());
                a("user data", (double)(intptr_t)k->getUserData()); v3("local position", k->getLocalToBodyTransform().getPosition()); Quaternion q = k->getLocalToBodyTransform().getOrientation(); a("orientation", q.x); a("orientation", q.y); a("orientation", q.z); a("orientation", q.w); a("shape", (double)(intptr_t)k->getCollisionShape()); a("body", (double)(intptr_t)k->getBody()); out[k] = s; } }
        for (auto& q : J) { Snap s; s.who = "joint(b" + std::to_string(q.a) + ",b" + std::to_string(q.b) + ",kind " + std::to_string(q.kind) + ")"; s.body = -1; auto a = [&](const char* n, double x) { s.v.push_back({n, x}); }; a("body1", (double)(intptr_t)q.j->getBody1()); a("body2", (double)(intptr_t)q.j->getBody2()); a("collision", q.j->isCollisionEnabled()); a("type", (int)q.j->getType());
            if (q.kind == 0) { auto* k = static_cast<rp3d::BallAndSocketJoint*>(q.j); a("cone on", k->isConeLimitEnabled()); a("cone", k->getConeLimitHalfAngle()); }
            if (q.kind == 2) { auto* k = static_cast<rp3d::HingeJoint*>(q.j); a("limit on", k->isLimitEnabled()); a("motor on", k->isMotorEnabled()); a("min", k->getMinAngleLimit()); a("max", k->getMaxAngleLimit()); a("speed", k->getMotorSpeed()); a("max torque", k->getMaxMotorTorque()); }
            if (q.kind == 3) { auto* k = static_cast<rp3d::SliderJoint*>(q.j); a("limit on", k->isLimitEnabled()); a("motor on", k->isMotorEnabled()); a("min", k->getMinTranslationLimit()); a("max", k->getMaxTranslationLimit()); a("speed", k->getMotorSpeed()); a("max force", k->getMaxMotorForce()); }
            out[q.j] = s; }
        return out; }
    // op: name of the operation just run; "bN.xxx" may change body N (and its colliders), nothing else may change
    void unchanged(const std::map<const void*, Snap>& old, const std::string& op) { int self = -1; if (op.size() > 2 && op[0] == 'b' && op.find('.') != std::string::npos) { self = atoi(op.c_str() + 1); } bool upd = op == "update"; bool life = op.find("sleep") != std::string::npos || op.find("Sleep") != std::string::npos || op.find("Active") != std::string::npos || op.find("setTransform") != std::string::npos;
        auto now = snap(); for (auto& q : now) { auto it = old.find(q.first); if (it == old.end() || it->second.who != q.second.who) continue; if (q.second.body == self && self >= 0 && (!life || op.find("Allowed") != std::string::npos)) continue;
            bool dyn = !upd && !(q.second.body == self && self >= 0); r.checked((long)q.second.v.size());
            for (size_t k = 0; k < q.second.v.size(); k++) { const char* n = q.second.v[k].first; if (n[0] == '*' && !dyn) continue; double x = it->second.v[k].second, y = q.second.v[k].second; if (!(x == y)) r.fail("other-object-changed", "%s: %s was %g, is %g after %s", q.second.who.c_str(), n, x, y, op.c_str()); } } }
    // --- the oracle
    bool awake(int i) const { return B[i].type != BodyType::STATIC && !B[i].b->isSleeping(); }
    bool noColl(int i, int j) const { for (auto& q : J) if (!q.coll && ((q.a == i && q.b == j) || (q.a == j && q.b == i))) return true; return false; }
    static double bound(int shape) { static const double R[] = {.5, .87, .81, .61, 4.25, 4.25, 2.01, 4.28}; return R[shape]; }   // radius of a sphere around the solid at size 1
    double sd(const Bod& x, const Col& a, const Bod& y, const Col& b) const { if (Shapes::concave(a.shape) && Shapes::concave(b.shape)) return 1e9;
        { double d = dist((x.b->getTransform() * a.local).getPosition(), (y.b->getTransform() * b.local).getPosition()) - bound(a.shape) * sh->size.at(a.shape) - bound(b.shape) * sh->size.at(b.shape); if (d > .1) return d; }
        geo::T ta = geo::T(x.b->getTransform()) * geo::T(a.local), tb = geo::T(y.b->getTransform()) * geo::T(b.local); double best = 1e9;
        for (auto& p : sh->parts[a.shape]) { geo::Solid P = geo::place(p, ta); for (auto& q : sh->parts[b.shape]) best = std::min(best, geo::signedDist(P, geo::place(q, tb))); } return best; }
    static bool filter(const Col& a, const Col& b) { return (a.cat & b.mask) && (b.cat & a.mask); }
    struct Exp { int i, j, ki, kj; bool must, mustNot, paused, trig; double d; };
    std::vector<Exp> expected() const { std::vector<Exp> out;
        for (size_t i = 0; i < B.size(); i++) if (B[i].exists && B[i].active) for (size_t j = i + 1; j < B.size(); j++) if (B[j].exists && B[j].active)
            for (size_t x = 0; x < B[i].cols.size(); x++) for (size_t y = 0; y < B[j].cols.size(); y++) { const Col &a = B[i].cols[x], &b = B[j].cols[y]; Exp e; e.i = (int)i; e.j = (int)j; e.ki = (int)x; e.kj = (int)y;
                e.trig = a.trig || b.trig; e.d = sd(B[i], a, B[j], b); bool roles = (a.sim || a.trig) && (b.sim || b.trig); bool el = filter(a, b) && roles && !noColl((int)i, (int)j); e.paused = !awake((int)i) && !awake((int)j);
                e.must = el && e.d < -tol && !e.paused; e.mustNot = !el || e.d > tol || e.paused; out.push_back(e); } return out; }
    std::string nm(const Exp& e) const { char s[200]; snprintf(s, 200, "b%d.c%d/b%d.c%d (distance %.4f)", e.i, B[e.i].cols[e.ki].id, e.j, B[e.j].cols[e.kj].id, e.d); return s; }
    void update(double dt = 1.0 / 60) {
        std::vector<Exp> ex = expected(); evs.clear(); points.clear(); cbErr.clear();
        std::vector<Transform> before(B.size()); std::vector<bool> mv(B.size(), true);
        for (size_t i = 0; i < B.size(); i++) if (B[i].exists) { before[i] = B[i].b->getTransform(); mv[i] = B[i].active && awake((int)i); }
        w->update((decimal)dt); updates++; r.transition();
        MC_LOG(r, "update -> %s", evText().c_str());
        MC_CHECK(r, cbErr.empty(), "callback", "%s", cbErr.c_str());
        for (auto& e : ex) { CP key = cp(B[e.i].cols[e.ki].c, B[e.j].cols[e.kj].c); auto it = evs.find(key); int t = it == evs.end() ? NONE : it->second.type; bool tch = touch.count(key) && touch[key]; bool rep = t == START || t == STAY;
            r.checked(3);
            if (e.must && !rep) r.fail("missed-contact", "%s overlap and may collide but are not reported (event: %s)", nm(e).c_str(), EVN[t]);
            if (e.mustNot && rep) r.fail("false-contact", "%s must not be reported, but %s was delivered", nm(e).c_str(), EVN[t]);
            if (t == START && tch) r.fail("event-order", "%s: Start although the pair was already touching", nm(e).c_str());
            if (t == STAY && !tch) r.fail("event-order", "%s: Stay without Start", nm(e).c_str());
            if (t == EXIT && !tch) r.fail("event-order", "%s: Exit without Start", nm(e).c_str());
            if (t == NONE && tch && !e.paused) r.fail("exit-missing", "%s: touching before, neither Stay nor Exit delivered", nm(e).c_str());
            if (rep && it->second.trigger != e.trig) r.fail("wrong-channel", "%s reported to %s", nm(e).c_str(), e.trig ? "onContact" : "onTrigger");
            if (rep && !e.trig && points[key] < 1) r.fail("no-points", "%s reported without contact points", nm(e).c_str());
            if (t == EXIT) { auto ch = chan.find(key); if (ch != chan.end() && ch->second == e.trig && it->second.trigger != e.trig) r.fail("wrong-channel", "%s: Exit reported to %s, all earlier events of the episode to %s, roles unchanged", nm(e).c_str(), e.trig ? "onContact" : "onTrigger", e.trig ? "onTrigger" : "onContact"); }
            if (rep) chan[key] = e.trig;
            if (rep) touch[key] = true; else if (t == EXIT) touch[key] = false; evs.erase(key); }
        for (auto& q : evs) { int i, j; const Col *a = findC(q.first.first, &i), *b = findC(q.first.second, &j); r.fail("inactive-reported", "b%d.c%d/b%d.c%d: event %s for a pair with an inactive body", i, a->id, j, b->id, EVN[q.second.type]); }
        for (size_t i = 0; i < B.size(); i++) if (B[i].exists && !mv[i] && (locked || !B[i].active || !awake((int)i))) { Transform t = B[i].b->getTransform(); r.checked(); if (!(t.getPosition() == before[i].getPosition()) || !(t.getOrientation() == before[i].getOrientation())) r.fail("moved", "b%zu is %s but moved from %s to %s", i, !B[i].active ? "inactive" : B[i].type == BodyType::STATIC ? "static" : "asleep", str(before[i].getPosition()).c_str(), str(t.getPosition()).c_str()); }
        state();
    }
    std::string evText() { std::string s; for (auto& q : evs) { int i = -1, j = -1; const Col *a = findC(q.first.first, &i), *b = findC(q.first.second, &j); char c[100]; snprintf(c, 100, "%s[b%d.c%d b%d.c%d %s]", q.second.trigger ? "trigger" : "contact", i, a ? a->id : -1, j, b ? b->id : -1, EVN[q.second.type]); s += c; } return s.empty() ? "no events" : s; }
    void state() { mc::Hash h; for (size_t i = 0; i < B.size(); i++) if (B[i].exists) { h.u(i); hashT(h, B[i].b->getTransform()); h.u((int)B[i].type * 8 + B[i].active * 4 + B[i].b->isSleeping()); for (auto& c : B[i].cols) { h.u(c.shape); h.u(c.cat * 65536 + c.mask); h.u(c.trig * 4 + c.sim * 2 + c.query); } } for (auto& j : J) h.u(j.a * 64 + j.b * 2 + j.coll); for (auto& t : touch) if (t.second) { int i = -1, j = -1; auto *a = findC(t.first.first, &i), *b = findC(t.first.second, &j); h.u(a && b ? a->id * 100 + b->id : 7); } r.state(h.h); }
    // --- every getter of every object against the model (C18)
    void getters(double ptol = 1e-4) {
        size_t nb = 0; for (auto& b : B) if (b.exists) nb++;
        MC_CHECK(r, w->getNbRigidBodies() == nb, "body-count", "getNbRigidBodies()=%u, %zu exist", w->getNbRigidBodies(), nb);
        std::set<RigidBody*> seen; for (unsigned i = 0; i < w->getNbRigidBodies(); i++) seen.insert(w->getRigidBody(i));
        for (size_t i = 0; i < B.size(); i++) if (B[i].exists) { Bod& b = B[i]; RigidBody* p = b.b; char n[20]; snprintf(n, 20, "b%zu", i);
            MC_CHECK(r, seen.count(p), "body-list", "%s is not returned by getRigidBody(i)", n);
            MC_CHECK(r, p->getType() == b.type, "body-type", "%s: type %d, set %d", n, (int)p->getType(), (int)b.type);
            MC_CHECK(r, p->isActive() == b.active, "body-active", "%s: isActive()=%d", n, p->isActive());
            MC_CHECK(r, p->isAllowedToSleep() == b.allowSleep, "body-allowsleep", "%s: isAllowedToSleep()=%d", n, p->isAllowedToSleep());
            MC_CHECK(r, p->isGravityEnabled() == b.gravity, "body-gravity", "%s: isGravityEnabled()=%d", n, p->isGravityEnabled());
            MC_CHECK(r, p->getLinearDamping() == b.lindamp && p->getMass() == b.mass && p->getUserData() == b.ud, "body-parameters", "%s: damping %g mass %g userData %p, set %g %g %p", n, (double)p->getLinearDamping(), (double)p->getMass(), p->getUserData(), (double)b.lindamp, (double)b.mass, b.ud);
            if (locked) { Transform t = p->getTransform(); MC_CHECK(r, dist(t.getPosition(), b.set.getPosition()) <= ptol, "body-transform", "%s is at %s, put at %s", n, str(t.getPosition()).c_str(), str(b.set.getPosition()).c_str());
                MC_CHECK(r, p->getLinearLockAxisFactor() == Vector3(0, 0, 0), "body-lock", "%s: lock factor changed", n); }
            MC_CHECK(r, p->getNbColliders() == b.cols.size(), "collider-count", "%s: getNbColliders()=%u, %zu exist", n, p->getNbColliders(), b.cols.size());
            std::set<Collider*> cs; for (unsigned k = 0; k < p->getNbColliders(); k++) cs.insert(p->getCollider(k));
            for (auto& c : b.cols) { MC_CHECK(r, cs.count(c.c), "collider-list", "%s: c%d is not returned by getCollider(i)", n, c.id); Collider* k = c.c;
                MC_CHECK(r, k->getBody() == p, "collider-body", "c%d: getBody() is another body", c.id);
                MC_CHECK(r, k->getCollisionShape() == sh->get(c.shape), "collider-shape", "c%d: another shape", c.id);
                MC_CHECK(r, k->getCollisionCategoryBits() == c.cat && k->getCollideWithMaskBits() == c.mask, "collider-bits", "c%d: category %x mask %x, set %x %x", c.id, k->getCollisionCategoryBits(), k->getCollideWithMaskBits(), c.cat, c.mask);
                MC_CHECK(r, k->getIsTrigger() == c.trig && k->getIsSimulationCollider() == c.sim && k->getIsWorldQueryCollider() == c.query, "collider-roles", "c%d: trigger %d simulation %d query %d, set %d %d %d", c.id, k->getIsTrigger(), k->getIsSimulationCollider(), k->getIsWorldQueryCollider(), c.trig, c.sim, c.query);
                MC_CHECK(r, k->getLocalToBodyTransform() == c.local, "collider-local", "c%d: local transform differs", c.id);
                MC_CHECK(r, std::fabs((double)k->getMaterial().getBounciness() - c.bounce) < 1e-6 && k->getUserData() == c.ud, "collider-material", "c%d: bounciness %g, set %g (user data %p/%p)", c.id, (double)k->getMaterial().getBounciness(), (double)c.bounce, k->getUserData(), c.ud);
                Transform lw = k->getLocalToWorldTransform(), xp = p->getTransform() * c.local; MC_CHECK(r, dist(lw.getPosition(), xp.getPosition()) <= 1e-4, "collider-world", "c%d: local-to-world transform %s, body gives %s", c.id, str(lw.getPosition()).c_str(), str(xp.getPosition()).c_str()); } }
        for (auto& j : J) MC_CHECK(r, j.j->getBody1() == B[j.a].b && j.j->getBody2() == B[j.b].b && j.j->isCollisionEnabled() == j.coll && (int)j.j->getType() == jt(j.kind), "joint-state", "joint between b%d and b%d reports other bodies or flags", j.a, j.b);
    }
    static int jt(int k) { return k == 0 ? (int)rp3d::JointType::BALLSOCKETJOINT : k == 1 ? (int)rp3d::JointType::FIXEDJOINT : k == 2 ? (int)rp3d::JointType::HINGEJOINT : (int)rp3d::JointType::SLIDERJOINT; }
    // --- overlap and collision queries in all forms (C05)
    struct QC : rp3d::OverlapCallback, rp3d::CollisionCallback { WM* m; std::map<CP, int> got; std::string err;
        void add(Collider* a, Collider* b, void* x, void* y) { int i, j; if (!m->findC(a, &i) || !m->findC(b, &j)) { err = "query names a collider that does not exist"; return; } if (m->B[i].b != x || m->B[j].b != y) err = "query names bodies that do not own the colliders"; if (got[cp(a, b)]++) err = "query reports a pair twice"; }
        void onOverlap(rp3d::OverlapCallback::CallbackData& d) override { for (unsigned p = 0; p < d.getNbOverlappingPairs(); p++) { auto c = d.getOverlappingPair(p); add(c.getCollider1(), c.getCollider2(), c.getBody1(), c.getBody2()); } }
        void onContact(const rp3d::CollisionCallback::CallbackData& d) override { for (unsigned p = 0; p < d.getNbContactPairs(); p++) { auto c = d.getContactPair(p); add(c.getCollider1(), c.getCollider2(), c.getBody1(), c.getBody2()); if (c.getNbContactPoints() < 1) err = "collision query reports a pair without contact points"; } } };
    void cmpQuery(const char* what, QC& q, int only1, int only2, bool collision) {
        MC_CHECK(r, q.err.empty(), "query-callback", "%s: %s", what, q.err.c_str());
        for (auto& e : exq) { const Col &a = B[e.i].cols[e.ki], &b = B[e.j].cols[e.kj]; bool sel = only1 < 0 || (only2 < 0 ? e.i == only1 || e.j == only1 : (e.i == only1 && e.j == only2) || (e.i == only2 && e.j == only1)); CP key = cp(a.c, b.c); bool got = q.got.count(key) > 0; q.got.erase(key); r.checked();
            bool el = sel && filter(a, b) && a.query && b.query && !(collision && e.trig);
            if (el && e.d < -tol && !noColl(e.i, e.j) && !got) r.fail("query-missed", "%s misses %s", what, nm(e).c_str());
            if ((!el || e.d > tol) && got) r.fail("query-false", "%s reports %s", what, nm(e).c_str()); }
        MC_CHECK(r, q.got.empty(), "query-false", "%s reports a pair with an inactive body", what); }
    std::vector<Exp> exq;
    void queries() { static const char* names[] = {"testOverlap()", "testCollision()"}; exq = expected();
        for (int c = 0; c < 2; c++) { { QC q; q.m = this; if (c) w->testCollision(q); else w->testOverlap(q); r.transition(); cmpQuery(names[c], q, -1, -1, c); }
            for (size_t i = 0; i < B.size(); i++) if (B[i].exists && B[i].active) { char n[60]; snprintf(n, 60, "%s on b%zu", names[c], i); QC q; q.m = this; if (c) w->testCollision(B[i].b, q); else w->testOverlap(B[i].b, q); r.transition(); cmpQuery(n, q, (int)i, -1, c);
                for (size_t j = 0; j < B.size(); j++) if (j != i && B[j].exists && B[j].active) { snprintf(n, 60, "%s on b%zu,b%zu", names[c], i, j); QC t; t.m = this; if (c) { w->testCollision(B[i].b, B[j].b, t); cmpQuery(n, t, (int)i, (int)j, c); }
                    else { bool got = w->testOverlap(B[i].b, B[j].b), must = false, may = false; for (auto& e : exq) if ((e.i == (int)i && e.j == (int)j) || (e.i == (int)j && e.j == (int)i)) { auto &a = B[e.i].cols[e.ki], &b = B[e.j].cols[e.kj]; bool el = filter(a, b) && a.query && b.query; if (el && e.d < -tol && !noColl(e.i, e.j)) must = true; if (el && e.d < tol) may = true; }
                        r.checked(); if (must && !got) r.fail("query-missed", "%s is false although their colliders overlap", n); if (!may && got) r.fail("query-false", "%s is true although nothing eligible overlaps", n); } r.transition(); } } } }
    void checkAlloc() { MC_CHECK(r, al.error.empty(), "allocator-misuse", "%s", al.error.c_str()); }
};
