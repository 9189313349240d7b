#pragma once
#include "wm.h"
// Many moving bodies: all of them interact while they are created, destroyed, switched and moved.
static void crowd(Run& r, int nops, int sizes, std::function<void(WM&)> post, bool getters) {
    static const int NB[] = {6, 18, 40}; static const int BASE[] = {-1, 4, 5, 7}; int n = NB[r.choose(sizes)], base = BASE[r.choose(4)]; double sp = r.flip() ? 1.15 : 0.85; int mix = r.choose(2);
    WM m(r); m.locked = false; m.distinct = getters; MC_LOG(r, "world: %d bodies on a lattice, spacing %g, base shape %d, mix %d", n, sp, base, mix);
    auto place = [&](int k, double dy = 0) { return Transform(Vector3((decimal)((k % 4 - 1.5) * sp), (decimal)((k / 16) * sp + .4 + dy), (decimal)((k / 4 % 4 - 1.5) * sp)), Quaternion::fromEulerAngles((decimal)(.37 * k * mix), (decimal)(.2 * k * mix), (decimal)(.53 * k * mix))); };
    auto vel = [&](int i, int k) { if (m.B[i].type != BodyType::STATIC) { m.B[i].b->setLinearVelocity(Vector3((decimal)(k * 5 % 7 - 3), (decimal)(k * 3 % 5 - 2.2), (decimal)(k * 7 % 9 - 4))); m.B[i].b->setAngularVelocity(Vector3((decimal)(k % 3 - 1), (decimal)(k % 4 - 2), (decimal)(k % 5 - 2))); } };
    if (base >= 0) m.addBody(BodyType::STATIC, WM::at(0, base == 7 ? -.5 : 0), base);
    auto make = [&](int k) { int i = m.addBody(k % 7 == 3 ? BodyType::KINEMATIC : k % 5 == 4 ? BodyType::STATIC : BodyType::DYNAMIC, place(k), (k * 3 + mix) % 4); if (k % 6 == 2) m.addCol(i, 0, WM::at(.4, .2)); if (k % 8 == 6) { auto& c = m.B[i].cols[0]; c.trig = true; c.sim = false; c.c->setIsTrigger(true); } vel(i, k); return i; };
    for (int k = 0; k < n; k++) make(k);
    auto step = [&](const char* op) { m.update(1.0 / 60); if (getters) { m.getters(); } if (post) post(m); (void)op; };
    step(""); if (r.flip()) step("");
    for (int s = 0; s < nops; s++) { int o = r.choose(15), L = (int)m.B.size() - 1, i = o == 0 || o == 11 ? 0 : o == 1 || o == 4 || o == 6 || o == 8 || o == 9 ? L / 2 : o == 2 ? L : 2; if (o != 3 && o != 5 && !m.B[i].exists) r.prune(); auto& b = m.B[i]; std::map<const void*, WM::Snap> before; if (getters) before = m.snap(); char nm[60] = "";
        switch (o) {
        case 0: case 1: case 2: snprintf(nm, 60, "b%d.destroy", i); MC_LOG(r, "%s", nm); m.destroyBody(i); break;
        case 3: MC_LOG(r, "create a body at place 5"); make(5 + 16 * s); break;
        case 4: snprintf(nm, 60, "b%d.toggleActive", i); MC_LOG(r, "%s", nm); m.setActive(i, !b.active); break;
        case 5: MC_LOG(r, "every other body sleeps"); for (size_t k = 0; k < m.B.size(); k += 2) if (m.B[k].exists && m.B[k].active && m.B[k].type != BodyType::STATIC) m.B[k].b->setIsSleeping(true); break;
        case 6: snprintf(nm, 60, "b%d.setType", i); MC_LOG(r, "%s", nm); m.setType(i, b.type == BodyType::DYNAMIC ? BodyType::KINEMATIC : BodyType::DYNAMIC); break;
        case 7: snprintf(nm, 60, "b%d.removeCollider", i); if (b.cols.empty()) r.prune(); MC_LOG(r, "%s", nm); m.removeCol(i, 0); break;
        case 8: { if (b.cols.empty()) r.prune(); snprintf(nm, 60, "b%d.setIsTrigger", i); MC_LOG(r, "%s", nm); auto& c = b.cols[0]; c.trig = !c.trig; if (c.trig) c.sim = false; c.c->setIsTrigger(c.trig); m.roleChanged(c.c); break; }
        case 9: { if (b.cols.empty()) r.prune(); snprintf(nm, 60, "b%d.setCollideWithMaskBits", i); MC_LOG(r, "%s", nm); auto& c = b.cols[0]; c.mask = c.mask == 0xffff ? 0x00f0 : 0xffff; c.c->setCollideWithMaskBits(c.mask); break; }
        case 10: snprintf(nm, 60, "b%d.setTransform", i); MC_LOG(r, "%s", nm); m.move(i, place(9 + s)); break;
        case 11: { int j = 3; if (!m.B[j].exists) r.prune(); MC_LOG(r, "createJoint(b0, b3)"); m.addJoint(0, j, false, s % 4); break; }
        case 12: if (m.J.empty()) r.prune(); MC_LOG(r, "destroyJoint"); m.removeJoint(0); break;
        case 13: snprintf(nm, 60, "b%d.addCollider", i); MC_LOG(r, "%s", nm); m.addCol(i, 1, WM::at(0, -.4)); break;
        case 14: snprintf(nm, 60, "b%d.moveFar", i); MC_LOG(r, "%s", nm); m.move(i, WM::at(0, 30)); break; }
        r.transition(); if (getters && *nm) { m.getters(); m.unchanged(before, nm); } step(""); if (!post) step(""); }
    for (size_t i = 0; i < m.B.size(); i++) if (m.B[i].exists && m.B[i].active && m.B[i].type != BodyType::STATIC) m.B[i].b->setIsSleeping(false);
    step(""); int ord = r.choose(2); MC_LOG(r, "destroy all, %s first", ord ? "last" : "first"); int N = (int)m.B.size();
    for (int k = 0; k < N; k++) { int i = ord ? N - 1 - k : k; if (m.B[i].exists) { m.destroyBody(i); if (k % 8 == 3) step(""); } }
    step(""); m.checkAlloc();
}
