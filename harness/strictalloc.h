#pragma once
// Strict allocator: 16-byte aligned blocks with guard zones, exact-size release, fill patterns.
#include <reactphysics3d/memory/MemoryAllocator.h>
#include <cstdlib>
#include <cstring>
#include <string>
#include <set>
#include <vector>
#include <cstdint>
struct StrictAllocator : public reactphysics3d::MemoryAllocator {
    struct Head { uint64_t magic, size; StrictAllocator* owner; uint64_t seq; };
    static const size_t HEAD = 32, GUARD = 16;
    static const size_t BIG = 1 << 18;      // large blocks are filled only at both ends and kept for the next execution
    static std::vector<std::pair<size_t, void*>>& cache() { static std::vector<std::pair<size_t, void*>> c; return c; }
    static void fill(char* p, int c, size_t n) { if (n < BIG) memset(p, c, n); else { memset(p, c, 4096); memset(p + n - 4096, c, 4096); } }
    long live = 0; uint64_t bytes = 0, total = 0; std::string error;
    void err(const char* e) { if (error.empty()) error = e; }
    void* allocate(size_t size) override {
        if (size == 0) err("allocate(0)");
        char* p = nullptr; if (size >= BIG) for (auto& c : cache()) if (c.first == size) { p = (char*)c.second; c = cache().back(); cache().pop_back(); break; }
        if (!p && posix_memalign((void**)&p, 16, HEAD + size + GUARD)) abort();
        Head* h = (Head*)p; h->magic = 0xA110CA7EDull; h->size = size; h->owner = this; h->seq = total++;
        fill(p + HEAD, 0xCD, size); memset(p + HEAD + size, 0xFB, GUARD);
        live++; bytes += size; return p + HEAD;
    }
    void release(void* q, size_t size) override {
        if (!q) { err("release(nullptr)"); return; }
        char* p = (char*)q - HEAD; Head* h = (Head*)p;
        if (h->magic == 0xDEADBEEFull) { err("block released twice"); return; }
        if (h->magic != 0xA110CA7EDull) { err("release of a pointer that was never allocated (or header overwritten)"); return; }
        if (h->owner != this) err("released to another allocator");
        if (h->size != size) { char b[120]; snprintf(b, 120, "block of %zu bytes released as %zu bytes", (size_t)h->size, size); err(b); }
        for (size_t i = 0; i < GUARD; i++) if ((unsigned char)p[HEAD + h->size + i] != 0xFB) { err("write past the end of a block"); break; }
        live--; bytes -= h->size; h->magic = 0xDEADBEEFull; fill(p + HEAD, 0xDD, h->size);
        if (h->size >= BIG) { cache().push_back({(size_t)h->size, p}); return; }
        quarantine[qn % 64] ? free(quarantine[qn % 64]) : (void)0; quarantine[qn++ % 64] = p;
    }
    void* quarantine[64] = {}; unsigned qn = 0;
    ~StrictAllocator() { for (auto p : quarantine) if (p) free(p); }
};
