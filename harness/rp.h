// Common helpers for the harnesses: only the library's public API is used.
#pragma once
#include "mc.h"
#include <vector>
#include <memory>
#include <map>
#include <set>
#include <cmath>
#include <algorithm>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <unistd.h>
#include <reactphysics3d/reactphysics3d.h>
namespace rp3d = reactphysics3d;
using rp3d::decimal; using rp3d::Vector3; using rp3d::Quaternion; using rp3d::Transform; using rp3d::Matrix3x3;
using mc::Run;

inline const char* propertyId(const char* dflt) { const char* p = getenv("MC_PROPERTY"); return p ? p : dflt; }

// Base allocator handed to PhysicsCommon: every block is a fresh zeroed mapping (so that executions
// do not see each other's memory), with bookkeeping of what is outstanding.
struct PageAllocator : public rp3d::MemoryAllocator {
    std::map<void*, size_t> live; uint64_t nAlloc = 0, nRelease = 0; std::string error; int fill = 0;
    static size_t up(size_t n) { return (n + 4095) & ~size_t(4095); }
    void* allocate(size_t size) override {
        void* p = mmap(0, up(size), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(9); }
        if (fill) memset(p, fill, up(size));
        live[p] = size; nAlloc++; return p;
    }
    void release(void* p, size_t size) override {
        auto it = live.find(p); nRelease++;
        if (it == live.end()) { if (error.empty()) error = "release of a block that is not outstanding"; return; }
        if (it->second != size && error.empty()) { char b[100]; snprintf(b, 100, "block of %zu bytes released as %zu", it->second, size); error = b; }
        munmap(p, up(it->second)); live.erase(it);
    }
    ~PageAllocator() { for (auto& e : live) munmap(e.first, up(e.second)); }
};

inline std::string str(const Vector3& v) { char b[120]; snprintf(b, 120, "(%.6g,%.6g,%.6g)", (double)v.x, (double)v.y, (double)v.z); return b; }
inline double dist(const Vector3& a, const Vector3& b) { return std::sqrt(double(a.x - b.x) * (a.x - b.x) + double(a.y - b.y) * (a.y - b.y) + double(a.z - b.z) * (a.z - b.z)); }
inline bool finite(const Vector3& v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
inline bool finite(const Quaternion& v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z) && std::isfinite(v.w); }
inline void hashV(mc::Hash& h, const Vector3& v) { h.d(v.x); h.d(v.y); h.d(v.z); }
inline void hashT(mc::Hash& h, const Transform& t) { hashV(h, t.getPosition()); h.d(t.getOrientation().x); h.d(t.getOrientation().y); h.d(t.getOrientation().z); h.d(t.getOrientation().w); }
