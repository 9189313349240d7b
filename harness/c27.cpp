// C27 (sequential part): every sequence of allocate/release/reset calls on the real allocators over an
// arena that hands out adjacent blocks, against a model of the outstanding blocks.
#include "rp.h"
#include <reactphysics3d/memory/MemoryManager.h>
using namespace rp3d;

// First-fit (or last-fit) arena: blocks separated by `gap` guard bytes, so that neighbours of every kind occur.
struct Arena : public MemoryAllocator {
    char* mem; size_t cap; std::map<char*, size_t> live; std::string error; size_t gap; bool down; uint64_t calls = 0; int rot = 0;
    Arena(size_t gap, bool down) : gap(gap), down(down) {
        static char* m = nullptr; cap = size_t(1) << 28;
        if (!m) m = (char*)mmap(0, cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        mem = m;
    }
    size_t foot(size_t n) const { return ((n + 15) & ~size_t(15)) + gap; }
    void* allocate(size_t size) override {
        calls++;
        if (size == 0 && error.empty()) error = "allocate(0) on the base allocator";
        char* p = nullptr;
        if (!down) {
            p = mem + 4096;
            for (auto& b : live) { if (size_t(b.first - p) >= foot(size) && b.first >= p) break; p = b.first + foot(b.second); }
        } else {
            char* end = mem + cap - 4096;
            for (auto it = live.rbegin(); it != live.rend(); ++it) { char* e = it->first + foot(it->second); if (size_t(end - e) >= foot(size)) break; end = it->first; }
            p = end - foot(size);
        }
        size_t n = (size + 15) & ~size_t(15);
        if (gap) memset(p + n, 0xFB, gap);
        live[p] = size; return p;
    }
    void release(void* q, size_t size) override {
        calls++; char* p = (char*)q; auto it = live.find(p);
        if (it == live.end()) { if (error.empty()) error = "release of memory that is not an outstanding base block"; return; }
        if (it->second != size && error.empty()) { char b[120]; snprintf(b, 120, "base block of %zu bytes released as %zu", it->second, size); error = b; }
        guard(it->first, it->second); live.erase(it);
    }
    void guard(char* p, size_t s) { size_t n = (s + 15) & ~size_t(15); for (size_t i = 0; i < gap; i++) if ((unsigned char)p[n + i] != 0xFB && error.empty()) error = "write outside of the base blocks"; }
    bool contains(char* p, size_t n) const { auto it = live.upper_bound(p); if (it == live.begin()) return false; --it; return p + n <= it->first + it->second; }
};

struct Block { char* p; size_t n; uint32_t id; int kind; bool dead = false; };
struct Model {
    Run& r; Arena& a; std::map<char*, Block> live; std::vector<char*> order; uint32_t next = 1;
    Model(Run& r, Arena& a) : r(r), a(a) {}
    static unsigned char pat(uint32_t id, size_t i) { return (unsigned char)(id * 37 + i * 11 + 5); }
    // bytes that are written and compared: everything for small blocks, both ends for large ones
    template <class F> void bytes(const Block& b, F f) { if (b.n <= 512) for (size_t i = 0; i < b.n; i++) f(i); else { for (size_t i = 0; i < 40; i++) f(i); for (size_t i = b.n - 40; i < b.n; i++) f(i); } }
    void add(void* q, size_t n, int kind) {
        char* p = (char*)q; r.transition();
        MC_CHECK(r, p != nullptr, "null", "allocate(%zu) returned null", n);
        MC_CHECK(r, ((uintptr_t)p & 15) == 0, "alignment", "allocate(%zu) returned an address that is not 16-byte aligned (%p)", n, (void*)p);
        MC_CHECK(r, a.contains(p, n), "outside", "allocate(%zu) returned memory outside of the blocks obtained from the base allocator", n);
        auto it = live.upper_bound(p);
        if (it != live.end()) MC_CHECK(r, p + n <= it->first, "overlap", "allocate(%zu) overlaps the live block of %zu bytes %td bytes after it", n, it->second.n, it->first - p);
        if (it != live.begin()) { --it; MC_CHECK(r, it->first + it->second.n <= p, "overlap", "allocate(%zu) overlaps the live block of %zu bytes %td bytes before it", n, it->second.n, p - it->first); }
        Block b{p, n, next++, kind}; bytes(b, [&](size_t i) { p[i] = pat(b.id, i); });
        live[p] = b; order.push_back(p); ok();
    }
    void verify(const Block& b) { bool good = true; size_t at = 0; bytes(b, [&](size_t i) { if (good && (unsigned char)b.p[i] != pat(b.id, i)) { good = false; at = i; } });
        MC_CHECK(r, good, "contents", "byte %zu of a live block of %zu bytes has changed", at, b.n); }
    void verifyAll() { size_t k = 0; for (auto& e : live) { verify(e.second); if (++k > 300) break; } ok(); }
    Block take(size_t i) { char* p = order[i]; Block b = live[p]; verify(b); order.erase(order.begin() + i); live.erase(p); r.transition(); return b; }
    void ok() { MC_CHECK(r, a.error.empty(), "base", "%s", a.error.c_str()); }
    void end() { for (auto& e : a.live) a.guard(e.first, e.second); ok(); MC_CHECK(r, a.live.empty(), "leak", "%zu base blocks are not given back when the allocator is destroyed", a.live.size()); }
    void hash() { mc::Hash h; for (auto& e : live) { h.u(e.first - a.mem); h.u(e.second.n); } h.u(a.live.size()); r.state(h.h); }
};
static size_t gaps(Run& r) { return r.flip() ? 32 : 0; }

// ---- heap
static void heap(Run& r, std::vector<size_t> sizes, int depth) {
    Arena a(gaps(r), r.flip()); Model m(r, a);
    size_t init = r.pick(std::vector<size_t>{1, 64, 150, 700});
    { HeapAllocator h(a, init); MC_LOG(r, "HeapAllocator(init %zu) on a base %s", init, a.down ? "growing downwards" : "growing upwards");
      int n = depth;
      for (int i = 0; i < n; i++) {
        int k = r.choose(sizes.size() + m.order.size() + 1);
        if (k == 0) break;
        k--;
        if (k < (int)sizes.size()) { MC_LOG(r, "allocate(%zu)", sizes[k]); m.add(h.allocate(sizes[k]), sizes[k], 0); }
        else { Block b = m.take(k - sizes.size()); MC_LOG(r, "release(block #%u, %zu)", b.id, b.n); h.release(b.p, b.n); }
        m.verifyAll(); m.hash();
      }
      int how = m.order.size() > 1 ? r.choose(3) : 0;   // oldest first, newest first, inside out
      while (!m.order.empty()) { size_t i = how == 0 ? 0 : how == 1 ? m.order.size() - 1 : m.order.size() / 2; Block b = m.take(i); MC_LOG(r, "release(block #%u, %zu)", b.id, b.n); h.release(b.p, b.n); m.verifyAll(); }
      // everything was released: one more allocation of each kind still works
      for (size_t s : {size_t(24), size_t(333)}) { m.add(h.allocate(s), s, 0); }
      while (!m.order.empty()) { Block b = m.take(0); h.release(b.p, b.n); }
    }
    m.end();
}

// ---- pool
static void pool(Run& r, int depth) {
    Arena a(gaps(r), false); Model m(r, a);
    std::vector<size_t> sizes = r.thorough ? std::vector<size_t>{1, 16, 17, 1000, 2048, 2049} : std::vector<size_t>{16, 17, 2048, 2049};
    { PoolAllocator p(a);
      for (int i = 0; i < depth; i++) {
        int ns = sizes.size();
        int k = r.choose(1 + 2 * ns + (m.order.empty() ? 0 : 4) + 1);
        if (k == 0) break; k--;
        if (k < 2 * ns) { size_t s = sizes[k % ns]; size_t unit = (s + 15) / 16 * 16; int n = k < ns ? 1 : s > 2048 ? 3 : 32768 / unit + (r.flip() ? 1 : 0);
            MC_LOG(r, "%d x allocate(%zu)", n, s); for (int j = 0; j < n; j++) m.add(p.allocate(s), s, 0); }
        else if (k == 2 * ns) { int n = 16 * 33; MC_LOG(r, "%d x allocate(2048)", n); for (int j = 0; j < n; j++) m.add(p.allocate(2048), 2048, 0); }
        else { k -= 2 * ns + 1; // release the oldest, the newest, every other one, all
            MC_LOG(r, "release %s", k == 0 ? "oldest" : k == 1 ? "newest" : k == 2 ? "every other block" : "all blocks");
            std::vector<char*> keep; std::vector<Block> go;
            for (size_t j = 0; j < m.order.size(); j++) { bool g = k == 0 ? j == 0 : k == 1 ? j + 1 == m.order.size() : k == 2 ? j % 2 == 0 : true; Block b = m.live[m.order[j]]; if (g) go.push_back(b); else keep.push_back(b.p); }
            for (auto& b : go) { m.verify(b); m.live.erase(b.p); p.release(b.p, b.n); r.transition(); }
            m.order = keep; }
        m.verifyAll(); m.hash();
      }
      for (auto& e : m.live) { m.verify(e.second); }
      while (!m.order.empty()) { Block b = m.live[m.order.back()]; m.order.pop_back(); m.live.erase(b.p); p.release(b.p, b.n); }
    }
    m.end();
}
// every size class: two allocations of each size 1..2100 and neighbours
static void poolSizes(Run& r) {
    Arena a(32, false); Model m(r, a); size_t s = 1 + r.choose(2100); int other = r.choose(3) - 1; size_t s2 = (size_t)std::max<long>(1, (long)s + other * 15); int order = r.choose(2);
    MC_LOG(r, "sizes %zu and %zu", s, s2);
    { PoolAllocator p(a);
      for (int i = 0; i < 3; i++) { m.add(p.allocate(s), s, 0); m.add(p.allocate(s2), s2, 0); }
      Block b = m.take(order ? 0 : 1); p.release(b.p, b.n); m.add(p.allocate(s2), s2, 0); m.add(p.allocate(s), s, 0); m.verifyAll(); m.hash();
      while (!m.order.empty()) { Block b = m.take(order ? 0 : m.order.size() - 1); p.release(b.p, b.n); m.verifyAll(); } }
    m.end();
}

// ---- single frame
static void frame(Run& r, int depth) {
    Arena a(gaps(r), r.flip()); Model m(r, a);
    std::vector<size_t> sizes = {1, 16, 500000, 524272, 1048544, 1048560, 1048561, 2097136, 3000000};
    if (!r.thorough) sizes = {1, 16, 524272, 1048560, 1048561, 2097136};
    { SingleFrameAllocator f(a);
      for (int i = 0; i < depth; i++) {
        int ns = sizes.size(); int nb = m.order.size();
        int k = r.choose(1 + ns + nb + 1);
        if (k == 0) break; k--;
        if (k < ns) { MC_LOG(r, "allocate(%zu)", sizes[k]); void* q = f.allocate(sizes[k]); m.add(q, sizes[k], a.live.count((char*)q) && a.live[(char*)q] == sizes[k] ? 1 : 0); }
        else if (k < ns + nb) { Block b = m.take(k - ns); MC_LOG(r, "release(block #%u, %zu)", b.id, b.n); f.release(b.p, b.n); }
        else { MC_LOG(r, "reset()"); for (int j = nb - 1; j >= 0; j--) if (m.live[m.order[j]].kind == 0) { m.take(j); } f.reset(); r.transition(); }
        m.verifyAll(); m.hash();
      }
      while (!m.order.empty()) { Block b = m.take(m.order.size() - 1); f.release(b.p, b.n); m.verifyAll(); }
    }
    m.end();
}

// ---- the three together, as the library uses them
static void manager(Run& r, int depth) {
    Arena a(gaps(r), r.flip()); Model m(r, a);
    size_t init = r.pick(std::vector<size_t>{64, 1048576 + 2000, 1200000});
    typedef MemoryManager::AllocationType T; const T types[] = {T::Pool, T::Heap, T::Frame, T::Base};
    std::vector<std::pair<int, size_t>> ops = {{0, 20}, {0, 2048}, {0, 5000}, {1, 20}, {1, 40000}, {2, 100}, {2, 1048560}, {2, 1048570}, {3, 48}};
    { MemoryManager mm(&a, init);
      for (int i = 0; i < depth; i++) {
        int no = ops.size(), nb = m.order.size();
        int k = r.choose(1 + no + nb + 1);
        if (k == 0) break; k--;
        if (k < no) { T t = types[ops[k].first]; size_t n = ops[k].second; MC_LOG(r, "allocate(%d, %zu)", ops[k].first, n); m.add(mm.allocate(t, n), n, ops[k].first); }
        else if (k < no + nb) { Block b = m.take(k - no); MC_LOG(r, "release(block #%u, type %d, %zu)", b.id, b.kind, b.n); mm.release(types[b.kind], b.p, b.n); }
        else { MC_LOG(r, "release frame blocks and resetFrameAllocator()"); for (int j = nb - 1; j >= 0; j--) if (m.live[m.order[j]].kind == 2) { Block b = m.take(j); mm.release(T::Frame, b.p, b.n); } mm.resetFrameAllocator(); r.transition(); }
        m.verifyAll(); m.hash();
      }
      int how = r.choose(2);
      while (!m.order.empty()) { Block b = m.take(how ? m.order.size() - 1 : 0); mm.release(types[b.kind], b.p, b.n); m.verifyAll(); }
    }
    m.end();
}

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"heap-mixed", [](Run& r) { heap(r, {1, 16, 33, 100}, r.thorough ? 8 : 6); }, "HeapAllocator over an adjacent-block arena (2 gaps x 2 growth directions x 4 initial sizes), all sequences of up to 6 (thorough 8) allocate(1,16,33,100)/release(any live block), then release in 3 orders, reuse, destroy"});
    sc.push_back({"heap-sizes", [](Run& r) { heap(r, {1, 15, 17, 31, 32, 48, 64, 300, 1000}, r.thorough ? 6 : 5); }, "the same with 9 sizes, sequences of up to 5 (thorough 6)"});
    sc.push_back({"heap-long", [](Run& r) { heap(r, {24, 90}, r.thorough ? 11 : 9); }, "the same with 2 sizes, sequences of up to 9 (thorough 11)"});
    sc.push_back({"pool", [](Run& r) { pool(r, r.thorough ? 4 : 3); }, "PoolAllocator: all sequences of up to 3 (thorough 4) of: allocate one / one block's worth (+1) of sizes 16,17,2048,2049 (thorough also 1,1000), 33 blocks of 2048 (table growth), release oldest/newest/every other/all"});
    sc.push_back({"pool-sizes", [](Run& r) { poolSizes(r); }, "PoolAllocator: every size 1..2100 with a neighbouring size class, release and reuse in 2 orders"});
    sc.push_back({"frame", [](Run& r) { frame(r, r.thorough ? 6 : 5); }, "SingleFrameAllocator: all sequences of up to 5 (thorough 6) of allocate(sizes around the buffer end and its doublings)/release/reset on 4 arenas"});
    sc.push_back({"manager", [](Run& r) { manager(r, r.thorough ? 6 : 5); }, "MemoryManager: all sequences of up to 5 (thorough 6) of allocations of the four kinds, releases and frame resets, on 4 arenas x 3 initial heap sizes"});
    return mc::main(argc, argv, propertyId("C27"), sc, "Blocks larger than 512 bytes are compared at both ends (40 bytes) only.");
}
