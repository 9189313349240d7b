// Stand-ins for the bodies of the pool, heap and single-frame allocators (which C27 checks by themselves): every block is its own
// malloc() block, so that AddressSanitizer sees every use after release, and sizes and owners of releases are compared.
#include <reactphysics3d/memory/PoolAllocator.h>
#include <reactphysics3d/memory/HeapAllocator.h>
#include <reactphysics3d/memory/SingleFrameAllocator.h>
#include <unordered_map>
#include <string>
#include <cstdlib>
#include <cstring>
namespace life { struct B { size_t size; const void* owner; const char* kind; }; std::unordered_map<void*, B> live; std::string error; uint64_t allocs = 0, frameBlocks = 0; bool active() { return true; }
static void err(const char* f, const char* k, size_t a = 0, size_t b = 0) { if (error.empty()) { char t[200]; snprintf(t, 200, f, k, a, b); error = t; } }
static void* get(size_t n, const void* o, const char* k) { if (n == 0) return nullptr; void* p = nullptr; if (posix_memalign(&p, 16, n)) abort(); memset(p, 0xCD, n); live[p] = B{n, o, k}; allocs++; return p; }
static void put(void* p, size_t n, const void* o, const char* k) { if (n == 0) return; auto it = live.find(p); if (it == live.end()) { err("%s allocator: release of a block that is not allocated (%zu bytes)", k, n); return; } if (it->second.owner != o) err("block of another allocator released to the %s allocator", k); if (it->second.size != n) err("%s allocator: block of %zu bytes released as %zu bytes", k, it->second.size, n); live.erase(it); free(p); }
static void drop(const void* o, const char* k, bool leak) { for (auto it = live.begin(); it != live.end();) if (it->second.owner == o) { if (leak) err("%s allocator destroyed while a block of %zu bytes is allocated", k, it->second.size); free(it->first); it = live.erase(it); } else ++it; }
}
namespace reactphysics3d {
PoolAllocator::PoolAllocator(MemoryAllocator& b) : mBaseAllocator(b) {}
PoolAllocator::~PoolAllocator() { life::drop(this, "pool", true); }
void* PoolAllocator::allocate(size_t n) { return life::get(n, this, "pool"); }
void PoolAllocator::release(void* p, size_t n) { life::put(p, n, this, "pool"); }
HeapAllocator::HeapAllocator(MemoryAllocator& b, size_t) : mBaseAllocator(b) {}
HeapAllocator::~HeapAllocator() { life::drop(this, "heap", true); }
void* HeapAllocator::allocate(size_t n) { return life::get(n, this, "heap"); }
void HeapAllocator::release(void* p, size_t n) { life::put(p, n, this, "heap"); }
SingleFrameAllocator::SingleFrameAllocator(MemoryAllocator& b) : mBaseAllocator(b) {}
SingleFrameAllocator::~SingleFrameAllocator() { life::drop(this, "frame", false); }
void* SingleFrameAllocator::allocate(size_t n) { return life::get(n, this, "frame"); }
void SingleFrameAllocator::release(void* p, size_t n) { life::put(p, n, this, "frame"); }
void SingleFrameAllocator::reset() { life::drop(this, "frame", false); }
}
