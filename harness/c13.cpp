// Joints hold their constraint, limits and motors (C13): every joint type between every pair of body types, judged
// by geometry computed from the body transforms alone.
#include "joint.h"
static const D3 AXES[] = {{0, 0, 1}, {1, 0, 0}, {1, 2, -1}};
static D3 anchorAt(const P13& p, int k) { D3 a = d3(p.ta.getPosition()), b = d3(p.tb.getPosition()); return k == 0 ? (a + b) * .5 : k == 1 ? a : k == 2 ? b : D3{0.7, 1.2, -0.6}; }

static void holdScene(Run& r) { int type = r.choose(4), bt = r.choose(5); bool local = r.flip(), baum = r.flip(); int ak = r.choose(4), axk = type >= HINGE ? r.choose(3) : 0; int orient = r.choose(4); bool com = r.flip(); double ms[] = {1, 1000, 0.02}; double ma = ms[r.choose(3)], mb = ms[r.choose(r.thorough ? 3 : 2)]; bool grav = r.flip(); if (ma / mb > 2000 || mb / ma > 2000 || (baum && bt == 0 && ma != mb)) r.prune(); if (!r.thorough && (ma != mb) && (orient == 1 || orient == 2)) r.prune();
    MC_LOG(r, "%s joint, %s, %s anchors, %s, anchor %d, axis %d, orientations %d, off-centre mass %d, masses %g / %g, gravity %d", TN[type], PN[bt], local ? "local" : "world", baum ? "Baumgarte" : "Gauss-Seidel", ak, axk, orient, com, ma, mb, grav);
    P13 p(bt, grav ? 9.81 : 0, ma, mb, orient, com); J13 j; j.type = type; j.a = p.a; j.b = p.b; j.lo = -2; j.hi = 2; j.create(p.w, anchorAt(p, ak), AXES[axk], local, baum ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false); j.getters(r, "created", 0);
    MC_CHECK(r, len(j.sep()) < 1e-5, "creation", "harness: anchors apart at creation");
    if (p.dyn(p.a)) { p.a->setLinearVelocity(Vector3(decimal(.5), 1, 0)); p.a->setAngularVelocity(Vector3(0, decimal(.7), 1)); } if (p.dyn(p.b)) { p.b->setLinearVelocity(Vector3(-1, 0, decimal(.8))); p.b->setAngularVelocity(Vector3(1, 0, decimal(-.6))); }
    if (bt == 3) { p.a->setLinearVelocity(Vector3(decimal(.5), 0, decimal(-.3))); p.a->setAngularVelocity(Vector3(0, decimal(.5), decimal(.5))); } if (bt == 4) { p.b->setLinearVelocity(Vector3(decimal(.5), 0, decimal(-.3))); p.b->setAngularVelocity(Vector3(0, decimal(.5), decimal(.5))); }
    double dt = 1.0 / 60; D3 P0 = d3(p.a->getLinearVelocity()) * ma + d3(p.b->getLinearVelocity()) * mb; int N = r.thorough && ak == 0 ? (type == SLIDER ? 80 : 150) : 40; double ratio = std::max(ma / mb, mb / ma); double soft = bt == 0 && ratio > 10 ? 3 : 1, tp = bt >= 3 ? 0.16 : ak == 0 ? 0.08 : 0.1;
    for (int u = 1; u <= N; u++) { D3 va = d3(p.a->getLinearVelocity()), vb = d3(p.b->getLinearVelocity()); p.w->update((decimal)dt); r.transition(); double tr = u <= 6 ? 3 : 1; if (u > 1) j.holds(r, "hold", u, (baum ? 0.25 : tp) * soft * tr, (baum ? 0.25 : 0.08) * soft * tr); j.getters(r, "hold", u);
        if (bt == 0) { D3 g{0, grav ? -9.81 * dt : 0, 0}; D3 dP = (d3(p.a->getLinearVelocity()) - va - g) * ma + (d3(p.b->getLinearVelocity()) - vb - g) * mb; double sc = ma * (len(va) + 1) + mb * (len(vb) + 1); MC_CHECK(r, len(dP) < 1e-4 * sc, "momentum", "update %d: the joint changes the total momentum by (%g,%g,%g)", u, dP.x, dP.y, dP.z); }
        if (bt == 1 || bt == 2) { auto* f = bt == 1 ? p.a : p.b; Transform t0 = bt == 1 ? p.ta : p.tb; MC_CHECK(r, f->getTransform() == t0, "static-moved", "update %d: the joint moved the static body", u); } }
    (void)P0; mc::Hash h; hashT(h, p.a->getTransform()); hashT(h, p.b->getTransform()); r.state(h.h); MC_CHECK(r, p.al.error.empty(), "allocator", "%s", p.al.error.c_str()); }

// pushed against the limits
static void limitScene(Run& r) { int type = r.pick(std::vector<int>{BALL, HINGE, SLIDER}), bt = r.choose(5); bool local = r.flip(), baum = r.flip(); int ak = r.choose(2) ? 3 : 0, axk = type >= HINGE ? r.choose(3) : 0, orient = r.choose(4), range = r.choose(4), push = r.choose(2); double m = r.choose(2) ? 200 : 1; bool grav = r.flip();
    static const double LO[] = {-0.3, -1.2, 0, -2.5}, HI[] = {0.4, 0, 1.4, 2.8}; double lo = LO[range], hi = HI[range]; if (type == SLIDER) { lo *= .6; hi *= .6; }
    P13 p(bt, grav ? 9.81 : 0, m, m, orient, false); J13 j; j.type = type; j.a = p.a; j.b = p.b; j.lim = true; j.lo = lo; j.hi = hi; D3 an = anchorAt(p, ak);
    if (type == BALL) { D3 pa = an - d3(p.a->getTransform().getPosition()), pb = d3(p.b->getTransform().getPosition()) - an; double c0 = std::atan2(len(cross(pa, pb)), dot(pa, pb)); j.hi = c0 + 0.15 + 0.2 * range; if (j.hi > 3) r.prune(); }
    MC_LOG(r, "%s joint, %s, %s anchors, %s, anchor %d, axis %d, orientations %d, limits [%g, %g], pushed %s, mass %g, gravity %d", TN[type], PN[bt], local ? "local" : "world", baum ? "Baumgarte" : "Gauss-Seidel", ak, axk, orient, j.lo, j.hi, push ? "up" : "down", m, grav);

    j.create(p.w, an, AXES[axk], local, baum ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false); j.getters(r, "created", 0); D3 ax = j.axis(); double dt = 1.0 / 60; int N = r.thorough && ak == 0 && !baum ? 200 : 90; bool reached = false;
    if (bt == 3) { p.a->setAngularVelocity(Vector3(0, decimal(.4), decimal(.3))); } if (bt == 4) p.b->setAngularVelocity(Vector3(0, decimal(.4), decimal(.3)));
    for (int u = 1; u <= N; u++) { ax = j.axis(); double s = push ? 1 : -1; auto* f = p.dyn(p.b) ? p.b : p.a; double sg = f == p.b ? s : -s; if (type == HINGE) f->applyWorldTorque(v3(ax * (sg * 3 * m))); else if (type == SLIDER) f->applyWorldForceAtCenterOfMass(v3(ax * (sg * 4 * m))); else f->applyWorldForceAtCenterOfMass(Vector3((decimal)(s * 2 * m), 0, (decimal)(3 * m)));
        p.w->update((decimal)dt); r.transition(); if (u > 1) { double tk = ak == 0 ? 1 : 3; j.holds(r, "limit", u, baum ? 0.4 : 0.08 * tk, baum ? 0.4 : 0.1 * tk); j.limits(r, "limit", u, baum ? 0.4 : 0.1 * tk, baum ? 0.4 : 0.1 * tk); } j.getters(r, "limit", u); if (type == HINGE && u > 50) { double x = j.angle(); double d = std::min(std::fabs(std::remainder(x - lo, 2 * M_PI)), std::fabs(std::remainder(x - hi, 2 * M_PI))); if (d < 0.2) reached = true; } if (type == SLIDER && (std::fabs(j.trans() - (push ? hi : lo)) < 0.15)) reached = true; }
    if (ak == 0 && bt <= 2) { double tl = baum ? 0.1 : 0.02; j.limits(r, "at rest on the limit", N, tl, tl); }
    if (!grav && bt <= 2 && ((type == HINGE && N > 60 && range < 3 && ak == 0) || type == SLIDER)) MC_CHECK(r, reached, "stuck", "%s pushed towards its %s limit for %d updates never reaches it (now %g)", TN[type], push ? "upper" : "lower", N, type == HINGE ? j.angle() : j.trans());
    mc::Hash h; hashT(h, p.a->getTransform()); hashT(h, p.b->getTransform()); r.state(h.h); MC_CHECK(r, p.al.error.empty(), "allocator", "%s", p.al.error.c_str()); }

// motors: speed reached, with at most the maximum force
static void motorScene(Run& r) { int type = r.choose(2) ? SLIDER : HINGE, bt = r.choose(5); bool local = r.flip(), baum = r.flip(), lim = r.flip(); int axk = r.choose(3), orient = r.choose(4), sp = r.choose(3), fo = r.choose(3); double m = r.choose(2) ? 50 : 1; bool late = r.flip();
    P13 p(bt, 0, m, m, orient, false); J13 j; j.type = type; j.a = p.a; j.b = p.b; j.lim = lim; j.lo = -0.8; j.hi = 0.9; double speed = sp == 0 ? 0.5 : sp == 1 ? -0.7 : 0; double maxF = (fo == 0 ? 0.05 : fo == 1 ? 1000 : 0) * m; j.speed = speed; j.maxF = maxF; j.motor = !late;
    MC_LOG(r, "%s joint, %s, %s anchors, %s, axis %d, orientations %d, limits %d, motor speed %g, max force %g (%s), masses %g", TN[type], PN[bt], local ? "local" : "world", baum ? "Baumgarte" : "Gauss-Seidel", axk, orient, lim, speed, maxF, late ? "enabled later" : "enabled at creation", m);
    D3 an = bt == 2 || bt == 4 ? anchorAt(p, 1) : anchorAt(p, 2); j.create(p.w, an, AXES[axk], local, baum ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false); double dt = 1.0 / 60; int N = r.thorough ? 160 : 50; if (sp == 2) { auto* f = p.dyn(p.b) ? p.b : p.a; if (type == HINGE) f->setAngularVelocity(v3(j.axis() * (f == p.b ? .6 : -.6))); else f->setLinearVelocity(v3(j.axis() * (f == p.b ? .6 : -.6))); }
    auto vel = [&] { D3 ax = j.axis(); return type == HINGE ? dot(d3(p.b->getAngularVelocity()) - d3(p.a->getAngularVelocity()), ax) : dot(d3(p.b->getLinearVelocity()) + cross(d3(p.b->getAngularVelocity()), rot(q4(p.b->getTransform().getOrientation()), j.lb)) - d3(p.a->getLinearVelocity()) - cross(d3(p.a->getAngularVelocity()), j.X(p.b, j.lb) - d3(p.a->getTransform().getPosition())), ax); };
    p.w->update((decimal)dt); j.getters(r, "motor off", 1); if (late) { double v = vel(), want = sp == 2 ? .6 : 0; if (sp != 2) MC_CHECK(r, std::fabs(v - want) < 1e-3, "motor-off", "disabled motor drives at %g", v); if (type == HINGE) static_cast<rp3d::HingeJoint*>(j.j)->enableMotor(true); else static_cast<rp3d::SliderJoint*>(j.j)->enableMotor(true); j.motor = true; }
    double last = vel(); bool inside = true;
    for (int u = 2; u <= N; u++) { p.w->update((decimal)dt); r.transition(); j.holds(r, "motor", u, 0.08, 0.1); j.limits(r, "motor", u, baum ? 0.4 : 0.1, baum ? 0.4 : 0.1); j.getters(r, "motor", u); double v = vel(), f = type == HINGE ? static_cast<rp3d::HingeJoint*>(j.j)->getMotorTorque((decimal)dt) : static_cast<rp3d::SliderJoint*>(j.j)->getMotorForce((decimal)dt); MC_CHECK(r, std::fabs(f) <= maxF * 1.001 + 1e-6, "motor-force", "update %d: motor force %g above its maximum %g", u, f, maxF);
        double pos = type == HINGE ? j.angle() : j.trans(); if (lim && (pos > j.hi - 0.05 || pos < j.lo + 0.05)) inside = false; if (!inside) continue;
        if (std::fabs(last - speed) > 0.02 && fo != 2) MC_CHECK(r, std::fabs(v - speed) < std::fabs(last - speed) + 0.01 && (fo != 0 || std::fabs(v - speed) < std::fabs(last - speed) - 1e-5), "motor-drive", "update %d: speed goes from %g to %g, motor speed %g", u, last, v, speed);
        if (fo == 1) MC_CHECK(r, std::fabs(v - speed) < 0.02 + 0.02 * std::fabs(speed), "motor-speed", "update %d: relative speed %g, strong motor set to %g", u, v, speed); 
        if (fo == 0 && type == SLIDER) { double nd = (p.dyn(p.a) ? 1 / m : 0) + (p.dyn(p.b) ? 1 / m : 0); if (bt == 1 || bt == 2) MC_CHECK(r, std::fabs(v - last) < 1.05 * maxF * nd * dt + 2e-5, "motor-too-strong", "update %d: speed changes by %g in a step; the force allows %g", u, v - last, maxF * nd * dt); }
        last = v; }
    mc::Hash h; hashT(h, p.a->getTransform()); hashT(h, p.b->getTransform()); r.state(h.h); MC_CHECK(r, p.al.error.empty(), "allocator", "%s", p.al.error.c_str()); }

// several joints of mixed kinds and techniques in one world; settings changed while running
static void mixedScene(Run& r) { int n = 2; P13 p(1, 9.81, 2, 2, 0, false); std::vector<J13> js; std::vector<std::pair<int, int>> pick; 
    std::vector<rp3d::RigidBody*> bodies = {p.a}; std::string d; p.w->destroyRigidBody(p.b);
    for (int i = 0; i < n; i++) { int type = r.choose(4), tech = r.choose(2); bool chain = i && r.flip(); rp3d::RigidBody* base = chain ? bodies.back() : p.a; Transform t(Vector3(base->getTransform().getPosition().x + decimal(1.5), base->getTransform().getPosition().y, i && !chain ? decimal(3) : base->getTransform().getPosition().z), i ? axisAngle(0, 1, 0, 0.7) : Quaternion::identity()); auto* b = p.mk(t, 2, false); J13 j; j.type = type; j.a = base; j.b = b; j.lo = type == SLIDER ? -0.5 : -0.6; j.hi = 0.5; j.lim = type == HINGE || type == SLIDER; D3 an = (d3(base->getTransform().getPosition()) + d3(t.getPosition())) * .5; j.create(p.w, an, i ? D3{0, 0, 1} : D3{0, 1, 0.2}, false, tech ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false); js.push_back(j); bodies.push_back(b); d += std::string(i ? (chain ? " then " : " and ") : "") + TN[type] + (tech ? " (Baumgarte)" : " (Gauss-Seidel)"); pick.push_back({type, tech}); }
    MC_LOG(r, "%s", d.c_str()); int u = 0; bool cold = true; auto run = [&](int k, const char* when) { for (int i = 0; i < k; i++) { p.w->update(decimal(1.0 / 60)); r.transition(); u++; for (size_t q = 0; q < js.size(); q++) { auto& j = js[q]; bool baum = pick[q].second; (void)cold; if (i > 7) j.holds(r, when, u, baum ? 0.3 : 0.1, baum ? 0.3 : 0.1); if (i > 20) j.limits(r, when, u, baum ? 0.3 : 0.1, baum ? 0.3 : 0.1); j.getters(r, when, u); } } };
    run(10, "start"); int depth = r.thorough ? 3 : 2; for (int s = 0; s < depth; s++) { int k = r.choose(9); J13& j = js[r.choose(n)]; auto* h = static_cast<rp3d::HingeJoint*>(j.j); auto* l = static_cast<rp3d::SliderJoint*>(j.j); auto* c = static_cast<rp3d::BallAndSocketJoint*>(j.j); bool H = j.type == HINGE, S = j.type == SLIDER; static const char* ON[] = {"enableLimit(false)", "enableLimit(true)", "set limits", "motor on", "motor off", "setMotorSpeed(-1)", "setMaxMotor(5)", "nothing", "widen limits"}; MC_LOG(r, "%s on joint %d", ON[k], (int)(&j - &js[0])); if (k != 7 && !H && !S) { if (j.type == BALL && k < 2) { j.lim = k == 1; j.hi = 2.5; c->setConeLimitHalfAngle(decimal(2.5)); c->enableConeLimit(j.lim); } else r.prune(); }
        if (k == 1 || k == 2) { double lo = k == 2 ? -0.25 : j.lo, hi = k == 2 ? 0.2 : j.hi, x = H ? j.angle() : S ? j.trans() : 0; if (j.type == BALL ? j.cone() > 2.3 : (x < lo - 0.1 || x > hi + 0.1)) { MC_LOG(r, "(too far outside the limits)"); r.prune(); } }   // switching limits on far outside of them is a teleport
        switch (k) { case 0: if (H) h->enableLimit(false); if (S) l->enableLimit(false); if (H || S) j.lim = false; break; case 1: if (H) h->enableLimit(true); if (S) l->enableLimit(true); if (H || S) j.lim = true; break;
            case 2: j.lo = -0.25; j.hi = 0.2; if (H) { h->setMinAngleLimit(decimal(-.25)); h->setMaxAngleLimit(decimal(.2)); } else { l->setMinTranslationLimit(decimal(-.25)); l->setMaxTranslationLimit(decimal(.2)); } break;
            case 3: j.motor = true; j.speed = 1; j.maxF = 30; if (H) { h->setMotorSpeed(1); h->setMaxMotorTorque(30); h->enableMotor(true); } else { l->setMotorSpeed(1); l->setMaxMotorForce(30); l->enableMotor(true); } break;
            case 4: j.motor = false; if (H) h->enableMotor(false); else l->enableMotor(false); break; case 5: j.speed = -1; if (H) h->setMotorSpeed(-1); else l->setMotorSpeed(-1); break; case 6: j.maxF = 5; if (H) h->setMaxMotorTorque(5); else l->setMaxMotorForce(5); break;
            case 8: j.hi = 1.5; j.lo = -1.25; if (H) { h->setMaxAngleLimit(decimal(1.5)); h->setMinAngleLimit(decimal(-1.25)); } else { l->setMaxTranslationLimit(decimal(1.5)); l->setMinTranslationLimit(decimal(-1.25)); } break; }
        for (auto& q : js) q.getters(r, "set", 0); run(30, ON[k]); }
    mc::Hash h; for (auto* b : bodies) hashT(h, b->getTransform()); r.state(h.h); }

// equilibrium: reaction force and torque on body 2
static void reactionScene(Run& r) { int type = r.choose(4), orient = r.choose(2) * 3; bool local = r.flip(), baum = r.flip(), swap = r.flip(); int ax = type >= HINGE ? r.choose(2) : 0; double m = r.choose(2) ? 40 : 1;
    MC_LOG(r, "%s joint carrying a hanging body, %s", TN[type], swap ? "body first" : "support first"); P13 p(1, 10, m, m, orient, false); Vector3 pos(0, -2, 0); p.b->setTransform(Transform(pos, p.b->getTransform().getOrientation())); p.tb = p.b->getTransform(); J13 j; j.type = type; j.a = swap ? p.b : p.a; j.b = swap ? p.a : p.b; j.lo = -0.5; j.hi = 0.5; j.lim = type == SLIDER && ax == 1;
    j.create(p.w, {0, -1, 0}, ax == 0 ? D3{0, 0, 1} : D3{0, 1, 0}, local, baum ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false); D3 f{0, 0, 0}; for (int u = 1; u <= 120; u++) { p.w->update(decimal(1.0 / 60)); r.transition(); j.holds(r, "hanging", u, 0.05, 0.05); if (u > 60) f = f + d3(j.j->getReactionForce(decimal(1.0 / 60))) * (1 / 60.0); } double want = (swap ? -1 : 1) * m * 10; D3 e = f - D3{0, want, 0}; MC_CHECK(r, len(e) < 0.08 * m * 10, "reaction", "reaction force on body 2 is (%g,%g,%g), equilibrium needs (0,%g,0)", f.x, f.y, f.z, want); D3 v = d3(p.b->getLinearVelocity()); MC_CHECK(r, len(v) < 0.1, "equilibrium", "hanging body moves at (%g,%g,%g)", v.x, v.y, v.z); r.state(1); }
// a body carried by a slowly turning kinematic body under a load that turns along: the reaction follows the load smoothly
static void carryScene(Run& r) { int type = FIXED + r.choose(3), bt = r.choose(2) ? 4 : 3; bool baum = r.flip(); static const D3 JA[] = {{0, 0, 1}, {1, 0, 0}, {1, 2, -1}, {0, 1, 0}}; int axk = r.choose(4), orient = r.choose(4), wk = r.choose(6), dir = r.choose(r.thorough ? 4 : 2); double m = r.choose(2) ? 40 : 1;
    static const D3 W[] = {{.5, 0, 0}, {0, .5, 0}, {0, 0, .5}, {.3, -.3, .3}, {-.3, .2, .4}, {.4, .3, 0}}; MC_LOG(r, "%s joint, %s, %s, axis %d, orientations %d, turning about (%g,%g,%g), load direction %d, mass %g", TN[type], PN[bt], baum ? "Baumgarte" : "Gauss-Seidel", axk, orient, W[wk].x, W[wk].y, W[wk].z, dir, m);
    P13 p(bt, 0, m, m, orient, false); auto *car = bt == 3 ? p.a : p.b, *load = bt == 3 ? p.b : p.a; D3 ax = JA[axk] * (1 / len(JA[axk])); D3 c0 = d3(car->getTransform().getPosition()); load->setTransform(Transform(v3(c0 + ax * 2), load->getTransform().getOrientation())); load->setLocalInertiaTensor(Vector3((decimal)m, (decimal)m, (decimal)m));
    J13 j; j.type = type; j.a = p.a; j.b = p.b; j.lo = -2; j.hi = 2; j.create(p.w, c0 + ax, ax, false, baum ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false); Q4 q0 = q4(car->getTransform().getOrientation()); D3 e1 = cross(ax, std::fabs(ax.x) < .8 ? D3{1, 0, 0} : D3{0, 1, 0}); e1 = e1 * (1 / len(e1)); D3 e2 = cross(ax, e1); double th = dir * 2.1 + .3; D3 fl = rot(inv(q0), e1 * std::cos(th) + e2 * std::sin(th));
    car->setAngularVelocity(v3(W[wk])); load->setAngularVelocity(v3(W[wk])); load->setLinearVelocity(v3(cross(W[wk], ax * 2))); double dt = 1.0 / 60; D3 lf{0, 0, 0}, lt{0, 0, 0}; int N = r.thorough ? 200 : 110;
    for (int u = 1; u <= N; u++) { D3 F = rot(q4(car->getTransform().getOrientation()), fl) * (10 * m); load->applyWorldForceAtCenterOfMass(v3(F)); D3 v0 = d3(load->getLinearVelocity()); p.w->update((decimal)dt); r.transition(); j.holds(r, "carry", u, 0.1, 0.1); D3 acc = (d3(load->getLinearVelocity()) - v0) * (1 / dt), rf = d3(j.j->getReactionForce((decimal)dt)), rt = d3(j.j->getReactionTorque((decimal)dt)); D3 want = (acc * m - F) * (load == p.b ? 1.0 : -1.0); double sc = 10 * m;
        if (u > 10) { MC_CHECK(r, len(rf - want) < 0.02 * sc, "carry-reaction", "update %d: reaction force (%g,%g,%g), the motion of the load needs (%g,%g,%g)", u, rf.x, rf.y, rf.z, want.x, want.y, want.z); MC_CHECK(r, len(rf - lf) < 0.05 * sc && len(rt - lt) < 0.05 * sc, "carry-kick", "update %d: reaction jumps from (%g,%g,%g) / (%g,%g,%g) to (%g,%g,%g) / (%g,%g,%g) under a steady load of %g", u, lf.x, lf.y, lf.z, lt.x, lt.y, lt.z, rf.x, rf.y, rf.z, rt.x, rt.y, rt.z, sc); } lf = rf; lt = rt; }
    mc::Hash h; hashT(h, load->getTransform()); r.state(h.h); MC_CHECK(r, p.al.error.empty(), "allocator", "%s", p.al.error.c_str()); }

// a support moved by setTransform while joints hang on it: the load follows its new place
static void moveScene(Run& r) { int type = r.choose(4); bool baum = r.flip(), swap = r.flip(), kin = r.flip(), com = r.flip(), sleep = false; int axk = type >= HINGE ? r.choose(2) : 0, n = r.choose(3), mv = r.choose(4); MC_LOG(r, "%s joint, %s, %s support, %s first, axis %d, off-centre mass %d, %d moves of kind %d", TN[type], baum ? "Baumgarte" : "Gauss-Seidel", kin ? "kinematic" : "static", swap ? "load" : "support", axk, com, n + 1, mv);
    P13 p(kin ? 3 : 1, 10, 2, 2, 0, com); p.w->enableSleeping(sleep); J13 j; j.type = type; j.a = swap ? p.b : p.a; j.b = swap ? p.a : p.b; j.lo = -.4; j.hi = .5; j.lim = type == SLIDER; p.b->setTransform(Transform(Vector3(0, decimal(-2), 0), Quaternion::identity())); j.create(p.w, {0, -1, 0}, axk ? D3{0, 1, 0} : D3{0, 0, 1}, false, baum ? JT::BAUMGARTE_JOINTS : JT::NON_LINEAR_GAUSS_SEIDEL, false);
    static const Vector3 DP[] = {Vector3(decimal(.3), 0, 0), Vector3(0, decimal(.2), decimal(-.3)), Vector3(0, 0, 0), Vector3(decimal(.1), decimal(-.1), decimal(.1))}; static const Quaternion DQ[] = {Quaternion::identity(), Quaternion::identity(), axisAngle(0, 0, 1, .3), axisAngle(1, 2, -1, .25)}; int wait = sleep ? 90 : 30; Transform t0 = p.a->getTransform();
    for (int k = 0; k <= n; k++) { for (int u = 1; u <= wait; u++) { p.w->update(decimal(1.0 / 60)); r.transition(); j.getters(r, "moved support", 0); } Transform t = p.a->getTransform(); t0 = Transform(t.getPosition() + DP[mv], DQ[mv] * t.getOrientation()); p.a->setTransform(t0); }
    for (int u = 1; u <= 60; u++) { p.w->update(decimal(1.0 / 60)); r.transition(); MC_CHECK(r, (p.a->getTransform().getPosition() - t0.getPosition()).length() < decimal(1e-6) && std::fabs(std::fabs((double)p.a->getTransform().getOrientation().dot(t0.getOrientation())) - 1) < 1e-6, "support-moved", "update %d: the joint moved its support", u); if (u > 40) { j.holds(r, "moved support", u, 0.1, 0.1); j.limits(r, "moved support", u, .1, .1); } j.getters(r, "moved support", u > 40 ? u : 0); }
    mc::Hash h; hashT(h, p.b->getTransform()); r.state(h.h); MC_CHECK(r, p.al.error.empty(), "allocator", "%s", p.al.error.c_str()); }
int main(int c, char** v) { std::vector<mc::Scenario> s;
    s.push_back({"hold", holdScene, "one joint: 4 types x 5 body-type pairs x world/local anchors x 2 correction techniques x 4 anchors (middle, either body, far) x 3 axes x 4 orientation pairs x off-centre mass x masses {1,1000,0.02} x gravity; bodies start with different velocities; 40 updates (thorough 80-150 for the middle anchor); every update judged"}); s.push_back({"limit", limitScene, "ball cone, hinge and slider limits: 5 body-type pairs x anchors x techniques x axes x orientations x 4 ranges x pushed to the lower/upper limit x 2 masses x gravity; 90 updates (thorough 200)"}); s.push_back({"motor", motorScene, "hinge and slider motors: 5 body-type pairs x 3 speeds x 3 maximum forces (weak, strong, zero) x limits x axes x orientations x masses x enabled at creation/later; 50 updates (thorough 160)"}); s.push_back({"mixed", mixedScene, "two joints of every type and technique, side by side or chained; then every sequence of 2 (thorough 3) setter calls out of 9 on either joint, 30 updates after each"}); s.push_back({"reaction", reactionScene, "a body hanging from a support by each joint type, either as body 1 or body 2: mean reaction force over 60 updates against the weight"});
    s.push_back({"carry", carryScene, "fixed, hinge and slider joints between a kinematic body turning at 0.5 rad/s and a load under a steady force turning along: 3 types x either body kinematic x techniques x 4 joint axes x 4 orientation pairs x 6 turning axes x 2 (thorough 4) load directions x 2 masses; 110 (200) updates: reaction force equals what the motion of the load needs, and neither force nor torque jumps"}); s.push_back({"moved-support", moveScene, "a static or kinematic support moved 1-3 times by setTransform (2 translations, rotation, both) under 4 joint types x techniques x roles x axes x off-centre masses x sleeping on/off: the load follows"});
    return mc::main(c, v, propertyId("C13"), s, "limits below +-2.8 rad; mass ratios up to 1000 (Baumgarte between two dynamic bodies only equal masses); tolerances: 0.05-0.1 m / rad near anchors with Gauss-Seidel correction, up to 0.6 for anchors far from both bodies and 0.25-0.4 with Baumgarte (20% of the error per step); far anchors with Baumgarte are judged for 40 updates only; limits are not switched on while the joint is more than 0.1 outside of them; free dynamics of the remaining axes only through momentum conservation"); }
